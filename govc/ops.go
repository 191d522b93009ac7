package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var maxI64 = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 63), big.NewInt(1))

func (x *Exec) constVal(v constant.Value, t types.Type) Val {
	c := x.c
	if v == nil {
		return x.zero(t)
	}
	switch {
	case isBoolT(t):
		return c.Bool(constant.BoolVal(v))
	case isString(t):
		return c.Str(constant.StringVal(v))
	case isFloat(t):
		f, _ := constant.Float64Val(constant.ToFloat(v))
		if isF32(t) {
			f32, _ := constant.Float32Val(constant.ToFloat(v))
			return x.f32(f32)
		}
		return x.f64(f)
	}
	if bits, _, ok := intInfo(t); ok {
		b := constBig(v)
		if x.c.BV {
			return c.BVLit(b, bits)
		}
		return c.Big(b)
	}
	unsup("constant %v of type %s", v, t)
	return nil
}

func (x *Exec) wrapTerm(r *Term, t types.Type) *Term {
	c := x.c
	bits, signed, ok := intInfo(t)
	if !ok || r.S != SInt {
		return r
	}
	lo, hi := intRange(t)
	if r.I != nil {
		m := new(big.Int).Lsh(big.NewInt(1), uint(bits))
		v := new(big.Int).Mod(new(big.Int).Sub(r.I, lo), m)
		return c.Big(v.Add(v, lo))
	}
	m := c.Big(new(big.Int).Lsh(big.NewInt(1), uint(bits)))
	_ = hi
	if !signed {
		return c.EMod(r, m)
	}
	half := c.Big(new(big.Int).Lsh(big.NewInt(1), uint(bits-1)))
	return c.Sub(c.EMod(c.Add(r, half), m), half)
}

// fit reduces r to the range of t, proving first that no reduction is needed.
func (x *Exec) fit(st *State, r *Term, t types.Type) *Term {
	c := x.c
	if r.S != SInt || r.hasBV {
		return r
	}
	lo, hi := intRange(t)
	if r.I != nil {
		if r.I.Cmp(lo) >= 0 && r.I.Cmp(hi) <= 0 {
			return r
		}
		return x.wrapTerm(r, t)
	}
	ok := c.And(c.Le(c.Big(lo), r), c.Le(r, c.Big(hi)))
	if st.pcm[ok] {
		return r
	}
	if x.noFeas {
		return x.wrapTerm(r, t)
	}
	if x.proveQF(st, ok, 600) {
		return r
	}
	if x.prove(st, ok, 1000) {
		st.assume(ok)
		return r
	}
	return x.wrapTerm(r, t)
}

func (x *Exec) negate(a *Term, t types.Type) *Term {
	c := x.c
	switch {
	case a.S == SF64 || a.S == SF32:
		return x.fp("fp.neg", a.S, a)
	case a.S == SInt || a.S == SReal:
		return c.Neg(a)
	case strings.HasPrefix(string(a.S), "(_ BitVec"):
		return c.mk("bvneg", a.S, a)
	}
	unsup("negation of %s", a.S)
	return nil
}

var rne = "RNE"

// fp applies an SMT floating point operator; in mode float=uf floats are an abstract sort with a
// NaN predicate and an order embedding into the reals (exact for comparisons; infinities are the
// extremes +-2^1024), arithmetic being uninterpreted.
func (x *Exec) fp(op string, s Sort, as ...*Term) *Term {
	c := x.c
	if c.FltMode != "uf" {
		return c.mk(op, s, as...)
	}
	sf := ""
	if as[0].S == SF32 {
		sf = "32"
	}
	nan := func(t *Term) *Term { return c.App("f"+sf+".nan", SBool, t) }
	key := func(t *Term) *Term { return c.App("f"+sf+".key", SReal, t) }
	inf := func() *Term { return c.Real(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 1024))) }
	ninf := func() *Term {
		return c.Real(new(big.Rat).SetInt(new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 1024))))
	}
	zero := func() *Term { return c.Real(new(big.Rat)) }
	switch op {
	case "fp.lt":
		return c.And(c.Not(nan(as[0])), c.Not(nan(as[1])), c.mk("<", SBool, key(as[0]), key(as[1])))
	case "fp.leq":
		return c.And(c.Not(nan(as[0])), c.Not(nan(as[1])), c.mk("<=", SBool, key(as[0]), key(as[1])))
	case "fp.eq":
		return c.And(c.Not(nan(as[0])), c.Not(nan(as[1])), c.Eq(key(as[0]), key(as[1])))
	case "fp.isNaN":
		return nan(as[0])
	case "fp.isInfinite":
		return c.And(c.Not(nan(as[0])), c.Or(c.Eq(key(as[0]), inf()), c.Eq(key(as[0]), ninf())))
	case "fp.isZero":
		return c.And(c.Not(nan(as[0])), c.Eq(key(as[0]), zero()))
	case "fp.isNegative":
		return c.And(c.Not(nan(as[0])), c.Or(c.mk("<", SBool, key(as[0]), zero()), c.And(c.Eq(key(as[0]), zero()), c.App("f"+sf+".signbit", SBool, as[0]))))
	case "fp.isPositive":
		return c.And(c.Not(nan(as[0])), c.Not(x.fp("fp.isNegative", SBool, as...)))
	case "fp.neg", "fp.abs":
		return c.App("f"+sf+op[2:], as[0].S, as...)
	}
	unsup("%s in mode float=uf", op)
	return nil
}

// ufLit is a literal in mode float=uf.
func (x *Exec) ufLit(f float64, s Sort) *Term {
	c := x.c
	n := fmt.Sprintf("f64!%x", math.Float64bits(f))
	sf := ""
	if s == SF32 {
		n = fmt.Sprintf("f32!%x", math.Float64bits(f))
		sf = "32"
	}
	t := c.NamedSym(n, s)
	if math.IsNaN(f) {
		c.AddAxiom(n, c.App("f"+sf+".nan", SBool, t))
		return t
	}
	r := new(big.Rat)
	switch {
	case math.IsInf(f, 1):
		r.SetInt(new(big.Int).Lsh(big.NewInt(1), 1024))
	case math.IsInf(f, -1):
		r.SetInt(new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 1024)))
	default:
		r.SetFloat64(f)
	}
	c.AddAxiom(n, c.And(c.Not(c.App("f"+sf+".nan", SBool, t)), c.Eq(c.App("f"+sf+".key", SReal, t), c.Real(r))))
	if f == 0 {
		c.AddAxiom(n, c.Eq(c.App("f"+sf+".signbit", SBool, t), c.Bool(math.Signbit(f))))
	}
	return t
}

func (x *Exec) ufConv(t *Term, to Sort) *Term {
	c := x.c
	if to == SF32 {
		return c.App("f.to32", SF32, t)
	}
	name := "f32.to64"
	r := c.App(name, SF64, t)
	v := c.BoundVar("f", SF32)
	rv := c.App(name, SF64, v)
	c.AddAxiom(name, c.Forall([]*Term{v}, c.And(c.Eq(c.App("f.nan", SBool, rv), c.App("f32.nan", SBool, v)), c.Eq(c.App("f.key", SReal, rv), c.App("f32.key", SReal, v))), []*Term{rv}))
	return r
}

// rounded is the machine number nearest to the real t (mode float=rnd; the functions rnd64 and
// rnd32 and what is assumed of them are in the specifications).
func (x *Exec) rounded(t *Term, ty types.Type) *Term {
	if !x.c.Rnd {
		return t
	}
	n := "rnd64"
	if isF32(ty) {
		n = "rnd32"
	}
	if x.S.Funs[n] == nil {
		unsup("mode float=rnd without fun %s", n)
	}
	x.useFun(n)
	return x.c.App("f$"+n, SReal, t)
}

// realToInt rounds the real t to an integer the way the named math function does.
func (x *Exec) realToInt(name string, t *Term) *Term {
	c := x.c
	zero, half := c.Real(new(big.Rat)), c.Real(big.NewRat(1, 2))
	fl := func(t *Term) *Term { return c.mk("to_int", SInt, t) }
	neg := func(t *Term) *Term { return c.mk("-", SReal, t) }
	away := func(f func(*Term) *Term) *Term {
		return c.Ite(c.mk("<=", SBool, zero, t), f(t), c.Neg(f(neg(t))))
	}
	switch name {
	case "math.Floor":
		return fl(t)
	case "math.Ceil":
		return c.Neg(fl(neg(t)))
	case "math.Trunc":
		return away(fl)
	case "math.Round":
		return away(func(t *Term) *Term { return fl(c.mk("+", SReal, t, half)) })
	}
	unsup("%s on reals", name)
	return nil
}

// repFact: the real t is a float64 value.
func (x *Exec) repFact(st *State, t *Term) {
	if x.c.Rnd && x.S.Funs["rep64"] != nil {
		x.useFun("rep64")
		st.assume(x.c.App("f$rep64", SBool, t))
	}
}

func (x *Exec) rm() *Term { return x.c.mk("RNE", SRM) }

func (x *Exec) fpArith(op token.Token, a, b *Term) *Term {
	c := x.c
	name := map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div"}[op]
	if name == "" {
		unsup("float operator %s", op)
	}
	if c.FltMode == "uf" {
		suffix := ""
		if a.S == SF32 {
			suffix = "32"
		}
		x.floatLemmas("f" + name + suffix)
		return c.App("f"+name+suffix, a.S, a, b)
	}
	return c.mk("fp."+name, a.S, x.rm(), a, b)
}

// floatLemmas attaches the lemmas proved in another float mode (mode float=fp use=uf) whose trigger
// is the arithmetic function name.
func (x *Exec) floatLemmas(name string) {
	if x.usedFun["."+name] {
		return
	}
	x.usedFun["."+name] = true
	for i, l := range x.S.Lemmas {
		if i >= x.lemmaLimit {
			break
		}
		if l.Mode["use"] != x.c.FltMode || len(l.Trigger) != 1 {
			continue
		}
		t := x.lemmaTerm(l)
		if len(t.Pats) != 1 || len(t.Pats[0]) != 1 || t.Pats[0][0].Op != name {
			continue
		}
		x.c.AddAxiom(name, t)
		x.c.heavy[t] = true
		x.usedLemmas[l.Name] = true
	}
}

// arithRaw is arithmetic on non-Int sorts.
func (x *Exec) arithRaw(op token.Token, a, b *Term, t types.Type) *Term {
	c := x.c
	if a.S != b.S {
		unsup("arith sorts %s %s", a.S, b.S)
	}
	switch {
	case a.S == SF64 || a.S == SF32:
		return x.fpArith(op, a, b)
	case a.S == SReal:
		n := map[token.Token]string{token.ADD: "+", token.SUB: "-", token.MUL: "*", token.QUO: "/"}[op]
		return c.mk(n, SReal, a, b)
	case a.S == SStr && op == token.ADD:
		return x.strCat(a, b)
	case strings.HasPrefix(string(a.S), "(_ BitVec"):
		_, signed, _ := intInfo(t)
		n := ""
		switch op {
		case token.ADD:
			n = "bvadd"
		case token.SUB:
			n = "bvsub"
		case token.MUL:
			n = "bvmul"
		case token.QUO:
			n = "bvudiv"
			if signed {
				n = "bvsdiv"
			}
		case token.REM:
			n = "bvurem"
			if signed {
				n = "bvsrem"
			}
		case token.AND:
			n = "bvand"
		case token.OR:
			n = "bvor"
		case token.XOR:
			n = "bvxor"
		case token.SHL:
			n = "bvshl"
		case token.SHR:
			n = "bvlshr"
			if signed {
				n = "bvashr"
			}
		default:
			unsup("bv op %s", op)
		}
		return c.mk(n, a.S, a, b)
	}
	unsup("arith on %s", a.S)
	return nil
}

func (x *Exec) compare(op token.Token, a, b *Term, t types.Type) *Term {
	c := x.c
	switch op {
	case token.GTR:
		return x.compare(token.LSS, b, a, t)
	case token.GEQ:
		return x.compare(token.LEQ, b, a, t)
	case token.NEQ:
		return c.Not(x.compare(token.EQL, a, b, t))
	}
	if a.S != b.S {
		unsup("compare sorts %s %s", a.S, b.S)
	}
	switch {
	case a.S == SF64 || a.S == SF32:
		switch op {
		case token.LSS:
			return x.fp("fp.lt", SBool, a, b)
		case token.LEQ:
			return x.fp("fp.leq", SBool, a, b)
		case token.EQL:
			return x.fp("fp.eq", SBool, a, b)
		}
	case a.S == SInt || a.S == SReal:
		switch op {
		case token.LSS:
			return c.Lt(a, b)
		case token.LEQ:
			return c.Le(a, b)
		case token.EQL:
			return c.Eq(a, b)
		}
	case a.S == SStr:
		switch op {
		case token.LSS:
			return x.strLt(a, b)
		case token.LEQ:
			return c.Or(c.Eq(a, b), x.strLt(a, b))
		case token.EQL:
			return c.Eq(a, b)
		}
	case strings.HasPrefix(string(a.S), "(_ BitVec"):
		_, signed, _ := intInfo(t)
		switch op {
		case token.LSS:
			if signed {
				return c.mk("bvslt", SBool, a, b)
			}
			return c.mk("bvult", SBool, a, b)
		case token.LEQ:
			if signed {
				return c.mk("bvsle", SBool, a, b)
			}
			return c.mk("bvule", SBool, a, b)
		case token.EQL:
			return c.Eq(a, b)
		}
	default:
		if op == token.EQL {
			return c.Eq(a, b)
		}
	}
	unsup("compare %s on %s", op, a.S)
	return nil
}

func (x *Exec) fpIsNaN(t *Term) *Term {
	if t.S == SReal {
		return x.c.False()
	}
	return x.fp("fp.isNaN", SBool, t)
}
func (x *Exec) fpIsInf(t *Term) *Term {
	if t.S == SReal {
		return x.c.False()
	}
	return x.fp("fp.isInfinite", SBool, t)
}

// binop executes a Go binary operator.
func (x *Exec) binop(st *State, op token.Token, av, bv Val, at, bt, rt types.Type) Val {
	c := x.c
	switch op {
	case token.EQL, token.NEQ:
		var r *Term
		aT, aok := av.(*Term)
		bT, bok := bv.(*Term)
		if aok && bok && (aT.S == SF64 || aT.S == SF32) {
			r = x.compare(token.EQL, aT, bT, at)
		} else if aok && bok && aT.S == SIface && bT.S == SIface {
			r = c.Eq(aT, bT)
		} else if aok && aT.S == SIface && (!bok || bT.S != SIface) {
			r = c.Eq(aT, x.box(bv, bt))
		} else if bok && bT.S == SIface {
			r = c.Eq(bT, x.box(av, at))
		} else {
			r = x.goEqual(av, bv, at)
		}
		if op == token.NEQ {
			return c.Not(r)
		}
		return r
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return x.compare(op, av.(*Term), bv.(*Term), at)
	}
	a, ok1 := av.(*Term)
	b, ok2 := bv.(*Term)
	if !ok1 || !ok2 {
		unsup("binary %s on %T", op, av)
	}
	if a.S == SBool {
		switch op {
		case token.AND:
			return c.And(a, b)
		case token.OR:
			return c.Or(a, b)
		case token.XOR:
			return c.Not(c.Eq(a, b))
		}
	}
	if a.S != SInt {
		if x.c.BV && (op == token.SHL || op == token.SHR) && a.S != b.S {
			b = x.bvResize(b, a.S, false)
		}
		r := x.arithRaw(op, a, b, rt)
		if a.S == SReal {
			r = x.rounded(r, rt)
		}
		return r
	}
	switch op {
	case token.ADD:
		return x.fit(st, c.Add(a, b), rt)
	case token.SUB:
		return x.fit(st, c.Sub(a, b), rt)
	case token.MUL:
		return x.fit(st, c.Mul(a, b), rt)
	case token.QUO:
		return x.fit(st, x.namedDiv(st, a, b), rt)
	case token.REM:
		return c.TRem(a, b)
	case token.SHL:
		if b.I != nil && b.I.IsInt64() && b.I.Int64() < 64 {
			return x.fit(st, c.Mul(a, c.Big(new(big.Int).Lsh(big.NewInt(1), uint(b.I.Int64())))), rt)
		}
	case token.SHR:
		if b.I != nil && b.I.IsInt64() && b.I.Int64() < 64 {
			return c.EDiv(a, c.Big(new(big.Int).Lsh(big.NewInt(1), uint(b.I.Int64()))))
		}
	case token.AND:
		if b.I != nil && a.I == nil {
			m := new(big.Int).Add(b.I, big.NewInt(1))
			if b.I.Sign() >= 0 && m.BitLen() == b.I.BitLen()+1 {
				return c.EMod(a, c.Big(m))
			}
		}
	}
	if a.I != nil && b.I != nil {
		switch op {
		case token.AND:
			return c.Big(new(big.Int).And(a.I, b.I))
		case token.OR:
			return c.Big(new(big.Int).Or(a.I, b.I))
		}
	}
	// bit operations on unbounded integers: unspecified result in range
	r := c.Fresh("bits", SInt)
	st.assume(x.typeFact(st, r, rt)...)
	x.assumption("bit operation " + op.String() + " treated as unspecified")
	return r
}

func (x *Exec) namedDiv(st *State, a, b *Term) *Term { return x.c.TDiv(a, b) }

func (x *Exec) bvResize(t *Term, s Sort, signed bool) *Term {
	var n, m int
	fmt.Sscanf(string(t.S), "(_ BitVec %d)", &n)
	fmt.Sscanf(string(s), "(_ BitVec %d)", &m)
	switch {
	case n == m:
		return t
	case m < n:
		return x.c.mk(fmt.Sprintf("(_ extract %d 0)", m-1), s, t)
	case signed:
		return x.c.mk(fmt.Sprintf("(_ sign_extend %d)", m-n), s, t)
	}
	return x.c.mk(fmt.Sprintf("(_ zero_extend %d)", m-n), s, t)
}

// goEqual is Go == on non-interface values.
func (x *Exec) goEqual(a, b Val, t types.Type) *Term {
	if s, ok := a.(*Slice); ok {
		return x.c.Eq(s.Arr, x.c.Int(0)) // only comparison with nil is legal
	}
	if s, ok := b.(*Slice); ok {
		return x.c.Eq(s.Arr, x.c.Int(0))
	}
	fa, fb := x.flatten(a, t), x.flatten(b, t)
	var cs []*Term
	for i := range fa {
		if fa[i].S == SF64 || fa[i].S == SF32 {
			cs = append(cs, x.fp("fp.eq", SBool, fa[i], fb[i]))
		} else {
			cs = append(cs, x.c.Eq(fa[i], fb[i]))
		}
	}
	return x.c.And(cs...)
}

func (x *Exec) isNil(v Val) *Term {
	c := x.c
	switch w := v.(type) {
	case *Term:
		if w.S == SIface {
			return x.ifaceIsNil(w)
		}
		return c.Eq(w, c.Int(0))
	case *Slice:
		return c.Eq(w.Arr, c.Int(0))
	case *Addr:
		if w.Kind != AObj || w.Path != "" {
			return c.False()
		}
		return c.Eq(w.Ref, c.Int(0))
	case *Clo:
		return c.False()
	case nil:
		return c.True()
	}
	unsup("isNil %T", v)
	return nil
}

func (x *Exec) ifaceIsNil(w *Term) *Term {
	if _, ok := x.knownBox(w); ok {
		return x.c.False()
	}
	n := x.nilIface()
	if w == n {
		return x.c.True()
	}
	if !x.nilAx {
		x.nilAx = true
		i := x.c.BoundVar("i", SIface)
		ty := x.typeof(i)
		x.c.AddAxiom("typeof", x.c.Forall([]*Term{i}, x.c.And(x.c.Le(x.c.Int(0), ty), x.c.Imp(x.c.Eq(ty, x.c.Int(0)), x.c.Eq(i, n))), []*Term{ty}))
	}
	return x.c.Eq(x.typeof(w), x.c.Int(0))
}

// sameVal is structural identity of two values (bitwise for floats).
func (x *Exec) sameVal(a, b Val, ta, tb types.Type) *Term {
	t := ta
	if t == nil {
		t = tb
	}
	if s, ok := a.(*Slice); ok {
		u := b.(*Slice)
		return x.c.And(x.c.Eq(s.Arr, u.Arr), x.c.Eq(s.Off, u.Off), x.c.Eq(s.Len, u.Len), x.c.Eq(s.Cap, u.Cap))
	}
	if at, ok := a.(*Term); ok {
		if bt, ok := b.(*Term); ok {
			return x.c.Eq(at, bt)
		}
	}
	fa, fb := x.flatten(a, t), x.flatten(b, t)
	var cs []*Term
	for i := range fa {
		cs = append(cs, x.c.Eq(fa[i], fb[i]))
	}
	return x.c.And(cs...)
}

// ---- strings ----

func (x *Exec) strLen(s *Term) *Term {
	if isStrLit(s) {
		if txt, ok := x.c.litText(s); ok {
			return x.c.Int(int64(len(txt)))
		}
	}
	if !x.strLenAx {
		x.strLenAx = true
		v := x.c.BoundVar("s", SStr)
		l := x.c.App("strlen", SInt, v)
		e := x.c.Str("")
		x.c.AddAxiom("strlen", x.c.Forall([]*Term{v}, x.c.And(x.c.Le(x.c.Int(0), l), x.c.Le(l, x.c.Big(maxI64)), x.c.Eq(x.c.Eq(l, x.c.Int(0)), x.c.Eq(v, e))), []*Term{l}))
	}
	if s.Op == "strcat" {
		return x.c.Add(x.strLen(s.Args[0]), x.strLen(s.Args[1]))
	}
	return x.c.App("strlen", SInt, s)
}

func (x *Exec) strAt(s, i *Term) *Term {
	if isStrLit(s) && i.I != nil {
		if txt, ok := x.c.litText(s); ok && i.I.IsInt64() && i.I.Int64() >= 0 && i.I.Int64() < int64(len(txt)) {
			return x.c.Int(int64(txt[i.I.Int64()]))
		}
	}
	if !x.strAtAx {
		x.strAtAx = true
		v := x.c.BoundVar("s", SStr)
		j := x.c.BoundVar("j", SInt)
		a := x.c.App("strat", SInt, v, j)
		x.c.AddAxiom("strat", x.c.Forall([]*Term{v, j}, x.c.And(x.c.Le(x.c.Int(0), a), x.c.Le(a, x.c.Int(255))), []*Term{a}))
	}
	return x.c.App("strat", SInt, s, i)
}

func (x *Exec) strCat(a, b *Term) *Term {
	la, oka := x.c.litTextOK(a)
	lb, okb := x.c.litTextOK(b)
	if oka && okb {
		return x.c.Str(la + lb)
	}
	if oka && la == "" {
		return b
	}
	if okb && lb == "" {
		return a
	}
	// right-normalise: (a+b)+c => a+(b+c)
	if a.Op == "strcat" {
		return x.strCat(a.Args[0], x.strCat(a.Args[1], b))
	}
	if oka && b.Op == "strcat" {
		if lb2, ok := x.c.litTextOK(b.Args[0]); ok {
			return x.strCat(x.c.Str(la+lb2), b.Args[1])
		}
	}
	t := x.c.App("strcat", SStr, a, b)
	if !x.strCatAx {
		x.strCatAx = true
		u, v := x.c.BoundVar("u", SStr), x.c.BoundVar("v", SStr)
		cat := x.c.App("strcat", SStr, u, v)
		x.strLen(u)
		e := x.c.Str("")
		x.c.AddAxiom("strcat", x.c.Forall([]*Term{u, v}, x.c.And(x.c.Eq(x.c.App("strlen", SInt, cat), x.c.Add(x.c.App("strlen", SInt, u), x.c.App("strlen", SInt, v))),
			x.c.Imp(x.c.Eq(u, e), x.c.Eq(cat, v)), x.c.Imp(x.c.Eq(v, e), x.c.Eq(cat, u))), []*Term{cat}))
	}
	return t
}

func (c *Ctx) litTextOK(t *Term) (string, bool) {
	if isStrLit(t) {
		return c.litText(t)
	}
	return "", false
}

func (x *Exec) strSub(s, lo, hi *Term) *Term {
	if txt, ok := x.c.litTextOK(s); ok && lo.I != nil && hi.I != nil {
		l, h := lo.I.Int64(), hi.I.Int64()
		if l >= 0 && l <= h && h <= int64(len(txt)) {
			return x.c.Str(txt[l:h])
		}
	}
	if lo.I != nil && lo.I.Sign() == 0 && hi == x.strLen(s) {
		return s
	}
	if !x.strSubAx {
		x.strSubAx = true
		v, l, h := x.c.BoundVar("s", SStr), x.c.BoundVar("l", SInt), x.c.BoundVar("h", SInt)
		t := x.c.App("strsub", SStr, v, l, h)
		x.strLen(v)
		sl := func(q *Term) *Term { return x.c.App("strlen", SInt, q) }
		ok := x.c.And(x.c.Le(x.c.Int(0), l), x.c.Le(l, h), x.c.Le(h, sl(v)))
		x.c.AddAxiom("strsub", x.c.Forall([]*Term{v, l, h}, x.c.And(x.c.Imp(ok, x.c.Eq(sl(t), x.c.Sub(h, l))),
			x.c.Imp(x.c.And(x.c.Eq(l, x.c.Int(0)), x.c.Eq(h, sl(v))), x.c.Eq(t, v))), []*Term{t}))
		j := x.c.BoundVar("j", SInt)
		x.strAt(v, j)
		sa := x.c.App("strat", SInt, t, j)
		x.c.AddAxiom("strsub", x.c.Forall([]*Term{v, l, h, j}, x.c.Imp(x.c.And(ok, x.c.Le(x.c.Int(0), j), x.c.Lt(j, x.c.Sub(h, l))), x.c.Eq(sa, x.c.App("strat", SInt, v, x.c.Add(l, j)))), []*Term{sa}))
		w := x.c.BoundVar("w", SStr)
		cat := x.c.App("strcat", SStr, v, w)
		tc := x.c.App("strsub", SStr, cat, l, h)
		x.c.AddAxiom("strsub", x.c.Forall([]*Term{v, w, l, h}, x.c.And(x.c.Imp(x.c.And(x.c.Eq(l, sl(v)), x.c.Eq(h, sl(cat))), x.c.Eq(tc, w)),
			x.c.Imp(x.c.And(x.c.Eq(l, x.c.Int(0)), x.c.Eq(h, sl(v))), x.c.Eq(tc, v))), []*Term{tc}))
	}
	return x.c.App("strsub", SStr, s, lo, hi)
}

func (x *Exec) strLt(a, b *Term) *Term {
	la, oka := x.c.litTextOK(a)
	lb, okb := x.c.litTextOK(b)
	if oka && okb {
		return x.c.Bool(la < lb)
	}
	c := x.c
	if !x.strLtAx {
		x.strLtAx = true
		u, v, w := c.BoundVar("u", SStr), c.BoundVar("v", SStr), c.BoundVar("w", SStr)
		lt := func(p, q *Term) *Term { return c.App("strlt", SBool, p, q) }
		c.AddAxiom("strlt", c.Forall([]*Term{u}, c.Not(lt(u, u)), []*Term{lt(u, u)}))
		c.AddAxiom("strlt", c.Forall([]*Term{u, v}, c.And(c.Not(c.And(lt(u, v), lt(v, u))), c.Or(lt(u, v), lt(v, u), c.Eq(u, v))), []*Term{lt(u, v)}))
		c.AddAxiom("strlt", c.Forall([]*Term{u, v, w}, c.Imp(c.And(lt(u, v), lt(v, w)), lt(u, w)), []*Term{lt(u, v), lt(v, w)}))
	}
	return c.App("strlt", SBool, a, b)
}

// bytesToStr is the string made of the bytes of s.
func (x *Exec) bytesToStr(st *State, s *Slice) *Term {
	c := x.c
	if txt, ok := x.constStr[s.Arr]; ok && s.Off.I != nil && s.Off.I.Sign() == 0 && s.Len == x.strLen(txt) {
		return txt
	}
	k := x.elKey(types.Typ[types.Uint8], "")
	arr := c.Select(x.get(st, k, arraySort(SInt, arraySort(SInt, SInt))), s.Arr)
	if txt, ok := x.bytesLit[arr]; ok && s.Off.I != nil && s.Len.I != nil {
		if lt, ok := c.litTextOK(txt); ok {
			o, l := s.Off.I.Int64(), s.Len.I.Int64()
			if o >= 0 && o+l <= int64(len(lt)) {
				return c.Str(lt[o : o+l])
			}
		}
	}
	if txt, ok := x.bytesLit[arr]; ok && s.Off.I != nil && s.Off.I.Sign() == 0 && s.Len == x.strLen(txt) {
		return txt
	}
	return c.App("bytes2str", SStr, arr, s.Off, s.Len)
}

func (x *Exec) strToBytes(st *State, s *Term) *Slice {
	c := x.c
	r := st.next
	st.next = c.Add(r, c.Int(1))
	k := x.elKey(types.Typ[types.Uint8], "")
	h := x.get(st, k, arraySort(SInt, arraySort(SInt, SInt)))
	inner := c.App("str2bytes", arraySort(SInt, SInt), s)
	if !x.s2bAx {
		x.s2bAx = true
		v, j := c.BoundVar("s", SStr), c.BoundVar("j", SInt)
		in := c.App("str2bytes", arraySort(SInt, SInt), v)
		x.strAt(v, j)
		c.AddAxiom("str2bytes", c.Forall([]*Term{v, j}, c.Eq(c.mk("select", SInt, in, j), c.App("strat", SInt, v, j)), []*Term{c.mk("select", SInt, in, j)}))
	}
	x.bytesLit[inner] = s
	x.set(st, k, c.Store(h, r, inner))
	ln := x.strLen(s)
	return &Slice{r, c.Int(0), ln, ln}
}

// ---- conversions ----

func (x *Exec) convertScalar(st *State, t *Term, from, to types.Type) *Term {
	c := x.c
	fb, fs, fi := intInfo(from)
	tb, ts, ti := intInfo(to)
	_ = fb
	switch {
	case fi && ti:
		if c.BV {
			return x.bvResize(t, bvSort(tb), fs)
		}
		return x.fit(st, t, to)
	case fi && isFloat(to):
		r := x.intToFloat(t, from, to)
		if r.S == SReal {
			r = x.rounded(r, to)
		}
		return r
	case isFloat(from) && ti:
		return x.floatToInt(st, t, from, to, ts, tb)
	case isFloat(from) && isFloat(to):
		so := x.floatSort(to)
		if so == SReal && isF32(to) && !isF32(from) {
			return x.rounded(t, to)
		}
		if t.S == so {
			return t
		}
		if c.FltMode == "uf" {
			return x.ufConv(t, so)
		}
		if so == SF64 {
			return c.mk("(_ to_fp 11 53)", SF64, x.rm(), t)
		}
		return c.mk("(_ to_fp 8 24)", SF32, x.rm(), t)
	case isString(from) && isString(to):
		return t
	case isBoolT(from) && isBoolT(to):
		return t
	case fi && isString(to):
		return c.App("rune2str", SStr, t)
	}
	unsup("conversion %s to %s", from, to)
	return nil
}

func (x *Exec) intToFloat(t *Term, from, to types.Type) *Term {
	c := x.c
	_, fs, _ := intInfo(from)
	so := x.floatSort(to)
	if so == SReal {
		return c.mk("to_real", SReal, t)
	}
	if c.BV {
		op := "to_fp_unsigned"
		if fs {
			op = "to_fp"
		}
		if so == SF32 {
			return c.mk("(_ "+op+" 8 24)", SF32, x.rm(), t)
		}
		return c.mk("(_ "+op+" 11 53)", SF64, x.rm(), t)
	}
	if t.I != nil {
		f, _ := new(big.Float).SetInt(t.I).Float64()
		if so == SF32 {
			f32, _ := new(big.Float).SetInt(t.I).Float32()
			return x.f32(f32)
		}
		return x.f64(f)
	}
	name := "i2f"
	if so == SF32 {
		name = "i2f32"
	}
	ap := c.App(name, so, t)
	if !x.i2fAx[name] {
		x.i2fAx[name] = true
		// facts: finite, sign, monotone
		i, j := c.BoundVar("i", SInt), c.BoundVar("j", SInt)
		fi, fj := c.App(name, so, i), c.App(name, so, j)
		zero := x.zeroTerm(so, to)
		rng := func(v *Term) *Term {
			lim := new(big.Int).Lsh(big.NewInt(1), 64)
			return c.And(c.Le(c.Big(new(big.Int).Neg(lim)), v), c.Le(v, c.Big(lim)))
		}
		c.AddAxiom(name, c.Forall([]*Term{i}, c.Imp(rng(i), c.And(c.Not(x.fpIsNaN(fi)), c.Not(x.fpIsInf(fi)),
			c.Eq(c.Lt(c.Int(0), i), x.fp("fp.lt", SBool, zero, fi)), c.Eq(c.Eq(c.Int(0), i), c.Eq(zero, fi)))), []*Term{fi}))
		c.AddAxiom(name, c.Forall([]*Term{i, j}, c.Imp(c.And(rng(i), rng(j), c.Le(i, j)), x.fp("fp.leq", SBool, fi, fj)), []*Term{fi, fj}))
		x.assumption("int to float conversion: finite, sign preserving, monotone")
	}
	return ap
}

func (x *Exec) floatToInt(st *State, t *Term, from, to types.Type, signed bool, bits int) *Term {
	c := x.c
	if t.S == SReal {
		fl := c.mk("to_int", SInt, t)
		tr := c.Ite(c.mk("<=", SBool, c.Real(new(big.Rat)), t), fl, c.Neg(c.mk("to_int", SInt, c.mk("-", SReal, t))))
		// what an out of range conversion yields is up to the implementation
		lo, hi := intRange(to)
		ok := c.And(c.Le(c.Big(lo), tr), c.Le(tr, c.Big(hi)))
		if st.pcm[ok] || x.proveQF(st, ok, 600) {
			return tr
		}
		other := c.App("f2out_"+sanitize(types.TypeString(to.Underlying(), nil)), SInt, t)
		st.assume(x.typeFact(st, other, to)...)
		return c.Ite(ok, tr, other)
	}
	rtz := c.mk("RTZ", SRM)
	if c.BV {
		op := "fp.to_ubv"
		if signed {
			op = "fp.to_sbv"
		}
		return c.mk(fmt.Sprintf("(_ %s %d)", op, bits), bvSort(bits), rtz, t)
	}
	name := "f2" + sanitize(types.TypeString(to.Underlying(), nil))
	if t.S == SF32 {
		name += "_32"
	}
	r := c.App(name, SInt, t)
	st.assume(x.typeFact(st, r, to)...)
	x.assumption("float to " + to.Underlying().String() + " conversion uninterpreted")
	return r
}

// convertValue is ssa.Convert / ChangeType.
func (x *Exec) convertValue(st *State, v Val, from, to types.Type) Val {
	switch w := v.(type) {
	case *Addr:
		if p, ok := to.Underlying().(*types.Pointer); ok {
			b := *w
			b.T = p.Elem()
			if b.Kind == AObj && b.Path == "" {
				b.Root = p.Elem()
			}
			return &b
		}
		return w
	case *Slice:
		if isString(to) {
			el := from.Underlying().(*types.Slice).Elem()
			if b, _, _ := intInfo(el); b == 8 {
				return x.bytesToStr(st, w)
			}
			unsup("[]rune to string")
		}
		return w
	case *Struct:
		return &Struct{T: to, F: w.F}
	case *Term:
		if s, ok := to.Underlying().(*types.Slice); ok && isString(from) {
			if b, _, _ := intInfo(s.Elem()); b == 8 {
				return x.strToBytes(st, w)
			}
			unsup("string to []rune")
		}
		if _, ok := opaqueSort(to); ok {
			return w
		}
		if types.IsInterface(to) && types.IsInterface(from) {
			return w
		}
		switch to.Underlying().(type) {
		case *types.Basic:
			if _, ok := from.Underlying().(*types.Basic); ok {
				if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
					unsup("unsafe pointer")
				}
				return x.convertScalar(st, w, from, to)
			}
			unsup("conversion %s to %s", from, to)
		}
		return w
	}
	return v
}

// ---- globals ----

func (x *Exec) global(o *types.Var) *ssa.Global {
	if o.Pkg() == nil {
		return nil
	}
	p := x.P.Prog.Package(o.Pkg())
	if p == nil {
		return nil
	}
	g, _ := p.Members[o.Name()].(*ssa.Global)
	return g
}

// globalConst gives the value of a leaf of a package variable that is only
// assigned by its initialiser.
func (x *Exec) globalConst(st *State, a *Addr, l leaf) *Term {
	if a.Path != "" {
		return nil
	}
	g := a.G
	ts, ok := x.globals[g]
	if !ok {
		ts = x.initGlobal(st, g)
		x.globals[g] = ts
	}
	if ts == nil {
		return nil
	}
	t := g.Type().(*types.Pointer).Elem()
	for i, ll := range x.leaves(t) {
		if ll.Path == l.Path {
			return ts[i]
		}
	}
	return nil
}

func (x *Exec) initGlobal(st *State, g *ssa.Global) []*Term {
	if g.Pkg == nil || g.Pkg.Func("init") == nil || g.Name() == "init$guard" {
		return nil
	}
	t := g.Type().(*types.Pointer).Elem()
	var store *ssa.Store
	for _, b := range g.Pkg.Func("init").Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok && s.Addr == g {
				if store != nil {
					return nil
				}
				store = s
			}
		}
	}
	name := sanitize(shortName(g.RelString(nil)))
	c := x.c
	if store == nil {
		if _, isRepo := x.P.Files[g.Pkg.Pkg.Path()]; isRepo {
			// never assigned: zero value
			return x.flatten(x.zero(t), t)
		}
		return nil
	}
	if v, ok := x.evalInit(st, store.Val); ok {
		return x.flatten(v, t)
	}
	// opaque constant with basic facts
	var ts []*Term
	for _, l := range x.leaves(t) {
		ts = append(ts, c.NamedSym("G0$"+name+sanitize(l.Path), l.S))
	}
	if call, ok := store.Val.(*ssa.Call); ok {
		if fn := call.Call.StaticCallee(); fn != nil && fn.RelString(nil) == "errors.New" {
			x.errIDs++
			c.AddAxiom(ts[0].Op, c.And(c.Eq(c.App("errid", SInt, ts[0]), c.Int(int64(x.errIDs))), c.Lt(c.Int(0), x.typeof(ts[0]))))
			return ts
		}
	}
	if len(ts) == 1 && ts[0].S == SInt {
		switch t.Underlying().(type) {
		case *types.Pointer, *types.Map, *types.Chan:
			if _, ok := store.Val.(*ssa.Call); ok || isMake(store.Val) {
				x.globalRefs = append(x.globalRefs, ts[0])
				c.AddAxiom(ts[0].Op, c.And(c.Lt(c.Int(0), ts[0]), c.Lt(ts[0], x.next0)))
				x.assumption("package variable " + shortName(g.RelString(nil)) + " is the non-nil object made by its initialiser")
				return ts
			}
		}
	}
	return ts
}

func isMake(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.MakeMap, *ssa.MakeChan, *ssa.Alloc:
		return true
	}
	return false
}

// evalInit evaluates simple initialiser expressions.
func (x *Exec) evalInit(st *State, v ssa.Value) (Val, bool) {
	c := x.c
	switch t := v.(type) {
	case *ssa.Const:
		return x.constOperand(t), true
	case *ssa.MakeInterface:
		if iv, ok := x.evalInit(st, t.X); ok {
			return x.box(iv, t.X.Type()), true
		}
	case *ssa.Convert:
		if iv, ok := x.evalInit(st, t.X); ok {
			if w, ok := iv.(*Term); ok && isString(t.X.Type()) {
				if _, ok := t.Type().Underlying().(*types.Slice); ok {
					if txt, ok := c.litTextOK(w); ok {
						var vals []*Term
						for i := 0; i < len(txt); i++ {
							vals = append(vals, c.Int(int64(txt[i])))
						}
						ref := c.NamedSym(fmt.Sprintf("GA$lit%d", len(x.constArr)), SInt)
						c.AddAxiom(ref.Op, c.And(c.Lt(c.Int(0), ref), c.Lt(ref, x.next0)))
						x.constArr[ref] = &constArr{vals: [][]*Term{vals}}
						x.constStr[ref] = w
						n := c.Int(int64(len(txt)))
						return &Slice{ref, c.Int(0), n, n}, true
					}
				}
			}
		}
	case *ssa.Slice:
		al, ok := t.X.(*ssa.Alloc)
		if !ok || t.Low != nil || t.High != nil {
			return nil, false
		}
		at, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !ok || at.Len() > 64 {
			return nil, false
		}
		ls := x.leaves(at.Elem())
		vals := make([][]*Term, len(ls))
		for i := range vals {
			vals[i] = make([]*Term, at.Len())
			for j := range vals[i] {
				vals[i][j] = x.zeroTerm(ls[i].S, ls[i].T)
			}
		}
		for _, r := range *al.Referrers() {
			switch ia := r.(type) {
			case *ssa.IndexAddr:
				k, ok := ia.Index.(*ssa.Const)
				if !ok {
					return nil, false
				}
				for _, r2 := range *ia.Referrers() {
					s, ok := r2.(*ssa.Store)
					if !ok {
						return nil, false
					}
					ev, ok := x.evalInit(st, s.Val)
					if !ok {
						return nil, false
					}
					for i, tm := range x.flatten(ev, at.Elem()) {
						vals[i][k.Int64()] = tm
					}
				}
			case *ssa.Slice:
			default:
				return nil, false
			}
		}
		ref := c.NamedSym(fmt.Sprintf("GA$%s", sanitize(al.Name()+al.Parent().Pkg.Pkg.Name())), SInt)
		c.AddAxiom(ref.Op, c.And(c.Lt(c.Int(0), ref), c.Lt(ref, x.next0)))
		x.constArr[ref] = &constArr{vals: vals}
		x.assumption("package-level slice literals are never written through")
		n := c.Int(at.Len())
		return &Slice{ref, c.Int(0), n, n}, true
	case *ssa.Call:
		if fn := t.Call.StaticCallee(); fn != nil {
			if fn.RelString(nil) == "reflect.TypeOf" {
				if mi, ok := t.Call.Args[0].(*ssa.MakeInterface); ok {
					return x.rtype(c.Int(int64(x.tag(mi.X.Type())))), true
				}
			}
		}
		if t.Call.IsInvoke() && t.Call.Method.Name() == "Elem" {
			if ld, ok := t.Call.Value.(*ssa.UnOp); ok && ld.Op == token.MUL {
				if g, ok := ld.X.(*ssa.Global); ok {
					ts := x.globals[g]
					if ts == nil {
						ts = x.initGlobal(st, g)
						x.globals[g] = ts
					}
					if len(ts) == 1 && ts[0].Op == "rtype" && ts[0].Args[0].I != nil {
						tt := c.tags[ts[0].Args[0].I.Int64()-1].T
						if p, ok := tt.Underlying().(*types.Pointer); ok {
							return x.rtype(c.Int(int64(x.tag(p.Elem())))), true
						}
					}
				}
			}
		}
	}
	return nil, false
}

// rtype is the reflect.Type of the Go type with the given tag.
func (x *Exec) rtype(tag *Term) *Term {
	c := x.c
	t := c.App("rtype", SIface, tag)
	if !x.rtypeAx {
		x.rtypeAx = true
		v := c.BoundVar("t", SInt)
		r := c.App("rtype", SIface, v)
		c.AddAxiom("rtype", c.Forall([]*Term{v}, c.And(c.Eq(c.App("rtag", SInt, r), v), c.Lt(c.Int(0), x.typeof(r))), []*Term{r}))
	}
	return t
}

type constArr struct {
	vals [][]*Term // per leaf
}

func shortName(s string) string {
	// drop directories of import paths
	out := ""
	for {
		i := strings.IndexByte(s, '/')
		if i < 0 {
			return out + s
		}
		// find start of this path element
		j := i
		for j > 0 && (s[j-1] == '.' || s[j-1] == '-' || s[j-1] == '_' || s[j-1] >= '0' && s[j-1] <= '9' || s[j-1] >= 'a' && s[j-1] <= 'z' || s[j-1] >= 'A' && s[j-1] <= 'Z') {
			j--
		}
		out += s[:j]
		s = s[i+1:]
	}
}
