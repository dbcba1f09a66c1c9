package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"
)

// Floats are an uninterpreted sort per width (F32, F64). nan*/val* give the
// class and the exact real value (±2^1024 stands for ±Inf in both widths);
// every arithmetic result is an uninterpreted term whose value is related to
// the exact real result by the rounding axioms below.

var fconsts map[*Term]float64

var infRat = new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 1024))

func fconst64(f float64) *Term {
	if f != f {
		f = math.NaN()
	}
	t := namedSym(fmt.Sprintf("fc64@%016x", math.Float64bits(f)), "F64")
	if fconsts == nil {
		fconsts = map[*Term]float64{}
	}
	fconsts[t] = f
	return t
}
func fconst32(f float32) *Term {
	if f != f {
		f = float32(math.NaN())
	}
	t := namedSym(fmt.Sprintf("fc32@%08x", math.Float32bits(f)), "F32")
	if fconsts == nil {
		fconsts = map[*Term]float64{}
	}
	fconsts[t] = float64(f)
	return t
}
func fconst(f float64, s string) *Term {
	if s == "F32" {
		return fconst32(float32(f))
	}
	return fconst64(f)
}

func isFC(t *Term) (float64, bool) {
	f, ok := fconsts[t]
	return f, ok
}

func sfx(s string) string {
	if s == "F32" {
		return "32"
	}
	return "64"
}

func fval(t *Term) *Term {
	if f, ok := isFC(t); ok {
		if f != f {
			return mkUF("val"+sfx(t.sort), "Real", t)
		}
		if math.IsInf(f, 1) {
			return mkRat(infRat)
		}
		if math.IsInf(f, -1) {
			return mkRat(new(big.Rat).Neg(infRat))
		}
		r := new(big.Rat)
		r.SetFloat64(f)
		return mkRat(r)
	}
	switch t.op {
	case "ite":
		return tIte(t.args[0], fval(t.args[1]), fval(t.args[2]))
	case "fneg32", "fneg64":
		return rNeg(fval(t.args[0]))
	case "fabs32", "fabs64":
		v := fval(t.args[0])
		return tIte(tLe(mkRat(new(big.Rat)), v), v, rNeg(v))
	case "fwiden":
		return fval(t.args[0])
	}
	return mkUF("val"+sfx(t.sort), "Real", t)
}

func fnan(t *Term) *Term {
	if f, ok := isFC(t); ok {
		return mkBool(f != f)
	}
	switch t.op {
	case "ite":
		return tIte(t.args[0], fnan(t.args[1]), fnan(t.args[2]))
	case "fneg32", "fneg64", "fwiden", "fabs32", "fabs64":
		return fnan(t.args[0])
	}
	return mkUF("nan"+sfx(t.sort), "Bool", t)
}

var rZero = func() *Term { return mkRat(new(big.Rat)) }

func rInt(n int64) *Term { return mkRat(big.NewRat(n, 1)) }

func flt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	return tAnd(tNot(fnan(a)), tNot(fnan(b)), tLt(fval(a), fval(b)))
}
func fle(a, b *Term) *Term {
	if a == b {
		return tNot(fnan(a))
	}
	return tAnd(tNot(fnan(a)), tNot(fnan(b)), tLe(fval(a), fval(b)))
}
func feq(a, b *Term) *Term {
	if a == b {
		return tNot(fnan(a))
	}
	return tAnd(tNot(fnan(a)), tNot(fnan(b)), tEq(fval(a), fval(b)))
}

// fsame: numerically equal or both NaN (ignores the sign of zero)
func fsame(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	return tOr(tEq(a, b), tAnd(fnan(a), fnan(b)), feq(a, b))
}

func ffinite(a *Term) *Term {
	v := fval(a)
	return tAnd(tNot(fnan(a)), tLt(v, mkRat(infRat)), tLt(mkRat(new(big.Rat).Neg(infRat)), v))
}

func fold2(a, b *Term, f64 func(x, y float64) float64, f32 func(x, y float32) float32) *Term {
	x, ok1 := isFC(a)
	y, ok2 := isFC(b)
	if !ok1 || !ok2 {
		return nil
	}
	if a.sort == "F32" {
		return fconst32(f32(float32(x), float32(y)))
	}
	return fconst64(f64(x, y))
}

func fneg(a *Term) *Term {
	if x, ok := isFC(a); ok {
		return fconst(-x, a.sort)
	}
	n := "fneg" + sfx(a.sort)
	if a.op == n {
		return a.args[0]
	}
	return mkRaw2(n, a.sort, a)
}

func mkRaw2(n, ret string, a ...*Term) *Term { return mkUF(n, ret, a...) }

func fadd(a, b *Term) *Term {
	if r := fold2(a, b, func(x, y float64) float64 { return x + y }, func(x, y float32) float32 { return x + y }); r != nil {
		return r
	}
	if a == b {
		return fmul(fconst(2, a.sort), a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkRaw2("fadd"+sfx(a.sort), a.sort, a, b)
}

func fmul(a, b *Term) *Term {
	if r := fold2(a, b, func(x, y float64) float64 { return x * y }, func(x, y float32) float32 { return x * y }); r != nil {
		return r
	}
	ng := "fneg" + sfx(a.sort)
	if a.op == ng {
		return fneg(fmul(a.args[0], b))
	}
	if b.op == ng {
		return fneg(fmul(a, b.args[0]))
	}
	if y, ok := isFC(b); ok {
		a, b = b, a
		_ = y
	}
	if y, ok := isFC(a); ok {
		if y == 1 {
			return b
		}
		if y < 0 || (y == 0 && math.Signbit(y)) {
			return fneg(fmul(fconst(-y, a.sort), b))
		}
		return mkRaw2("fmul"+sfx(a.sort), a.sort, a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkRaw2("fmul"+sfx(a.sort), a.sort, a, b)
}

func fdiv(a, b *Term) *Term {
	if r := fold2(a, b, func(x, y float64) float64 { return x / y }, func(x, y float32) float32 { return x / y }); r != nil {
		return r
	}
	ng := "fneg" + sfx(a.sort)
	if y, ok := isFC(b); ok && y != 0 && !math.IsInf(y, 0) {
		fr, ex := math.Frexp(y)
		if (fr == 0.5 || fr == -0.5) && ex > -100 && ex < 100 {
			return fmul(fconst(1/y, a.sort), a)
		}
	}
	if a.op == ng {
		return fneg(fdiv(a.args[0], b))
	}
	if b.op == ng {
		return fneg(fdiv(a, b.args[0]))
	}
	return mkRaw2("fdiv"+sfx(a.sort), a.sort, a, b)
}

func fconv(a *Term, to string) *Term {
	if a.sort == to {
		return a
	}
	if f, ok := isFC(a); ok {
		return fconst(f, to)
	}
	if to == "F64" {
		if a.op == "ite" {
			return tIte(a.args[0], fconv(a.args[1], to), fconv(a.args[2], to))
		}
		return mkRaw2("fwiden", "F64", a)
	}
	if a.op == "fwiden" {
		return a.args[0]
	}
	if a.op == "ite" {
		x, y := a.args[1], a.args[2]
		if x.op == "fwiden" || y.op == "fwiden" {
			return tIte(a.args[0], fconv(x, to), fconv(y, to))
		}
	}
	if a.op == "fneg64" {
		return fneg(fconv(a.args[0], to))
	}
	return mkRaw2("fnarrow", "F32", a)
}

func toReal(n *Term) *Term {
	if n.i != nil {
		return mkRat(new(big.Rat).SetInt(n.i))
	}
	return mkRaw("to_real", "Real", n)
}

func i2f(n *Term, s string) *Term {
	if n.i != nil {
		f, _ := new(big.Float).SetInt(n.i).Float64()
		if s == "F32" {
			g, _ := new(big.Float).SetInt(n.i).Float32()
			return fconst32(g)
		}
		return fconst64(f)
	}
	return mkRaw2("i2f"+sfx(s), s, n)
}

func f2i(a *Term, T types.Type) *Term {
	bits, signed, _ := intInfo(T)
	lo, hi := bitsRange(bits, signed)
	if f, ok := isFC(a); ok && f == f && math.Abs(f) < 1e15 {
		return mkInt(int64(math.Trunc(f)))
	}
	t := mkUF(fmt.Sprintf("f2i%s_%d_%v", sfx(a.sort), bits, signed), "Int", a)
	setRange(t, lo, hi)
	return t
}

func fbits(a *Term) *Term {
	if a.op == "frombits"+sfx(a.sort) {
		return a.args[0]
	}
	if f, ok := isFC(a); ok && f == f {
		if a.sort == "F64" {
			return mkBig(new(big.Int).SetUint64(math.Float64bits(f)))
		}
		return mkInt(int64(math.Float32bits(float32(f))))
	}
	t := mkUF("fbits"+sfx(a.sort), "Int", a)
	b := uint(64)
	if a.sort == "F32" {
		b = 32
	}
	lo, hi := bitsRange(b, false)
	setRange(t, lo, hi)
	addTermFact(t, tEq(mkUF("frombits"+sfx(a.sort), a.sort, t), a))
	return t
}

func ffrombits(n *Term, s string) *Term {
	if n.op == "fbits"+sfx(s) {
		return n.args[0]
	}
	if n.i != nil {
		if s == "F64" {
			return fconst64(math.Float64frombits(n.i.Uint64()))
		}
		return fconst32(math.Float32frombits(uint32(n.i.Uint64())))
	}
	if n.op == "ite" {
		return tIte(n.args[0], ffrombits(n.args[1], s), ffrombits(n.args[2], s))
	}
	t := mkUF("frombits"+sfx(s), s, n)
	b := uint(64)
	if s == "F32" {
		b = 32
	}
	lo, hi := bitsRange(b, false)
	addTermFact(t, tImp(tAnd(tLe(mkBig(lo), n), tLe(n, mkBig(hi))), tEq(mkUF("fbits"+sfx(s), "Int", t), n)))
	return t
}

// realMul in specifications: exact product; kept uninterpreted with sign and
// bound lemmas unless one side is a literal.
func (x *Exec) realMul(p, q *Term) *Term { return rprod(p, q) }

var nlMode bool

func rprod(p, q *Term) *Term {
	if p.r != nil || q.r != nil || nlMode {
		return rMul(p, q)
	}
	if p.id > q.id {
		p, q = q, p
	}
	if p.op == "ite" && termSize(p, 40) < 40 {
		return tIte(p.args[0], rprod(p.args[1], q), rprod(p.args[2], q))
	}
	if q.op == "ite" && termSize(q, 40) < 40 {
		return tIte(q.args[0], rprod(p, q.args[1]), rprod(p, q.args[2]))
	}
	if p.op == "-" && len(p.args) == 1 {
		return rNeg(rprod(p.args[0], q))
	}
	if q.op == "-" && len(q.args) == 1 {
		return rNeg(rprod(p, q.args[0]))
	}
	return mkUF("rprod", "Real", p, q)
}

func rdiv(p, q *Term) *Term {
	if q.r != nil && q.r.Sign() != 0 {
		return rMul(mkRat(new(big.Rat).Inv(q.r)), p)
	}
	return mkUF("rquot", "Real", p, q)
}

// ---------- axioms ----------

// floatAxioms instantiates the axioms for one float-related term.
// level: 0 uf, 1 values and sign/constant bounds, 2 + operand monotonicity, 3 + error bounds
func floatAxioms(t *Term, level int, consts []*Term) []*Term {
	var out []*Term
	op := t.op
	switch {
	case op == "val32" || op == "val64":
		a := t.args[0]
		inf := mkRat(infRat)
		out = append(out, tAnd(tLe(rNeg(inf), t), tLe(t, inf)))
		if _, isc := isFC(a); !isc {
			// a non-zero value determines the float
			un := mkUF("unval"+sfx(a.sort), a.sort, t)
			out = append(out, tImp(tAnd(tNot(fnan(a)), tNot(tEq(t, rZero()))), tEq(a, un)))
		}
		if a.sort == "F32" {
			// finite float32 values are below 2^128
			m := mkRat(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 128)))
			out = append(out, tOr(tEq(t, inf), tEq(t, rNeg(inf)), tAnd(tLt(rNeg(m), t), tLt(t, m))))
		}
	case op == "fneg32" || op == "fneg64":
		return foldLinks(t)
	}
	out = append(out, foldLinks(t)...)
	if level == 0 {
		// algebraic facts valid bit for bit (up to the sign of zero and NaN payload)
		switch op {
		case "fmul32", "fmul64":
			a, b := t.args[0], t.args[1]
			one := rInt(1)
			if _, isc := isFC(a); !isc {
				out = append(out, tImp(tAnd(tNot(fnan(a)), tEq(fval(a), one)), tEq(t, b)))
			}
			out = append(out, tImp(tAnd(tNot(fnan(b)), tEq(fval(b), one)), tEq(t, a)))
			out = append(out, nanAx(t, a, b)...)
		case "fadd32", "fadd64":
			a, b := t.args[0], t.args[1]
			z := rZero()
			out = append(out, tImp(tAnd(tNot(fnan(a)), tNot(fnan(b)), tEq(fval(a), z)), tAnd(tNot(fnan(t)), tEq(fval(t), fval(b)))))
			out = append(out, tImp(tAnd(tNot(fnan(a)), tNot(fnan(b)), tEq(fval(b), z)), tAnd(tNot(fnan(t)), tEq(fval(t), fval(a)))))
			out = append(out, nanAx(t, a, b)...)
		case "fdiv32", "fdiv64":
			out = append(out, nanAx(t, t.args[0], t.args[1])...)
		case "fnarrow":
			a := t.args[0]
			out = append(out, tEq(fnan(t), fnan(a)))
		}
		return out
	}
	switch op {
	case "fadd32", "fadd64":
		a, b := t.args[0], t.args[1]
		e := rAdd(fval(a), fval(b))
		g := tAnd(ffinite(a), ffinite(b))
		out = append(out, tImp(g, tAnd(roundAx(t, e, level, consts, fval(a), fval(b))...)))
		z := rZero()
		out = append(out, tImp(tAnd(g, tEq(fval(a), z)), tEq(fval(t), fval(b))))
		out = append(out, tImp(tAnd(g, tEq(fval(b), z)), tEq(fval(t), fval(a))))
		if intValued(a) && intValued(b) {
			out = append(out, intExact(t, g, e))
		}
		// infinities
		out = append(out, infAdd(t, a, b)...)
		out = append(out, nanAx(t, a, b)...)
		// gradual underflow: a sum of floats is zero only if it is exactly zero
		out = append(out, tImp(tAnd(g, tLt(z, e)), tLt(z, fval(t))), tImp(tAnd(g, tLt(e, z)), tLt(fval(t), z)))
	case "fmul32", "fmul64":
		a, b := t.args[0], t.args[1]
		e := rprod(fval(a), fval(b))
		g := tAnd(ffinite(a), ffinite(b))
		one := rInt(1)
		ax := roundAx(t, e, level, consts, fval(a), fval(b), rNeg(fval(a)), rNeg(fval(b)))
		out = append(out, tImp(g, tAnd(ax...)))
		if _, isc := isFC(a); !isc {
			out = append(out, tImp(tAnd(tNot(fnan(a)), tEq(fval(a), one)), tEq(t, b)))
		}
		out = append(out, tImp(tAnd(tNot(fnan(b)), tEq(fval(b), one)), tEq(t, a)))
		out = append(out, nanAx(t, a, b)...)
		out = append(out, infScale(t, a, b, true)...)
		if a != b {
			out = append(out, infScale(t, b, a, true)...)
		}
		if intValued(a) && intValued(b) {
			out = append(out, intExact(t, g, e))
		}
		if fc, isc := isFC(a); isc && isPow2(fc) {
			// exact scaling unless it under/overflows
			if fc >= 1 {
				out = append(out, tImp(tAnd(g, ffinite(t)), tEq(fval(t), e)))
			}
		}
	case "fdiv32", "fdiv64":
		a, b := t.args[0], t.args[1]
		e := rdiv(fval(a), fval(b))
		g := tAnd(ffinite(a), ffinite(b), tNot(tEq(fval(b), rZero())))
		out = append(out, tImp(g, tAnd(roundAx(t, e, level, consts, fval(a), rNeg(fval(a)))...)))
		out = append(out, nanAx(t, a, b)...)
		// x / Inf
		inf := mkRat(infRat)
		out = append(out, infScale(t, a, b, false)...)
		// x / 0 and 0 / 0
		zb := tAnd(tNot(fnan(a)), tNot(fnan(b)), tEq(fval(b), rZero()))
		out = append(out, tImp(tAnd(zb, tEq(fval(a), rZero())), fnan(t)), tImp(tAnd(zb, tNot(tEq(fval(a), rZero()))), tAnd(tNot(fnan(t)), tOr(tEq(fval(t), inf), tEq(fval(t), rNeg(inf))))))
		out = append(out, tImp(tAnd(ffinite(a), tNot(fnan(b)), tOr(tEq(fval(b), inf), tEq(fval(b), rNeg(inf)))), tAnd(tNot(fnan(t)), tEq(fval(t), rZero()))))
	case "fnarrow":
		a := t.args[0]
		out = append(out, tEq(fnan(t), fnan(a)))
		inf := mkRat(infRat)
		out = append(out, tImp(tAnd(tNot(fnan(a)), tEq(fval(a), inf)), tEq(fval(t), inf)))
		out = append(out, tImp(tAnd(tNot(fnan(a)), tEq(fval(a), rNeg(inf))), tEq(fval(t), rNeg(inf))))
		out = append(out, tImp(ffinite(a), tAnd(roundAx(t, fval(a), level, consts)...)))
	case "i2f32", "i2f64":
		n := t.args[0]
		out = append(out, tNot(fnan(t)))
		lim := int64(1) << 53
		if t.sort == "F32" {
			lim = 1 << 24
		}
		out = append(out, tImp(tAnd(tLe(mkInt(-lim), n), tLe(n, mkInt(lim))), tEq(fval(t), toReal(n))))
		out = append(out, tAnd(roundAx(t, toReal(n), level, consts)...))
		out = append(out, ffinite(t))
	}
	if strings.HasPrefix(op, "f2i") {
		a := t.args[0]
		bits := 0
		sg := false
		fmt.Sscanf(op[5:], "_%d_%t", &bits, &sg)
		lo, hi := bitsRange(uint(bits), sg)
		v := fval(a)
		g := tAnd(tNot(fnan(a)), tLt(mkRat(new(big.Rat).SetInt(new(big.Int).Sub(lo, big.NewInt(1)))), v), tLt(v, mkRat(new(big.Rat).SetInt(new(big.Int).Add(hi, big.NewInt(1))))))
		r := toReal(t)
		// truncation toward zero
		out = append(out, tImp(tAnd(g, tLe(rZero(), v)), tAnd(tLe(r, v), tLt(v, rAdd(r, rInt(1))), tGe(t, tZero))))
		out = append(out, tImp(tAnd(g, tLe(v, rZero())), tAnd(tLe(v, r), tLt(rAdd(r, rInt(-1)), v), tLe(t, tZero))))
	}
	if op == "rprod" {
		out = append(out, prodAx(t, t.args[0], t.args[1])...)
	}
	if op == "rquot" {
		out = append(out, quotAx(t, t.args[0], t.args[1])...)
	}
	return out
}

// intValued: t, when finite, is an integer. Rounding keeps it one.
func intValued(t *Term) bool {
	if c, ok := isFC(t); ok {
		return c == math.Trunc(c)
	}
	switch t.op {
	case "i2f32", "i2f64":
		return true
	case "fadd32", "fadd64", "fmul32", "fmul64", "ite":
		n := len(t.args)
		return intValued(t.args[n-2]) && intValued(t.args[n-1])
	case "fneg32", "fneg64", "fnarrow", "fwiden":
		return intValued(t.args[0])
	}
	return false
}

// intExact: integers of small magnitude are representable.
func intExact(t, g, e *Term) *Term {
	lim := mkRat(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 53)))
	if t.sort == "F32" {
		lim = mkRat(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 24)))
	}
	return tImp(tAnd(g, tLe(rNeg(lim), e), tLe(e, lim)), tEq(fval(t), e))
}

// foldLinks ties a term whose value is folded during construction (constants,
// negation, absolute value, widening) to the value function, for the solver
// may find it equal to other terms.
func foldLinks(t *Term) []*Term {
	_, isc := isFC(t)
	switch t.op {
	case "fneg32", "fneg64", "fabs32", "fabs64", "fwiden":
	default:
		if !isc {
			return nil
		}
	}
	s := sfx(t.sort)
	return []*Term{tEq(mkUF("val"+s, "Real", t), fval(t)), tEq(mkUF("nan"+s, "Bool", t), fnan(t))}
}

func isPow2(f float64) bool {
	fr, _ := math.Frexp(math.Abs(f))
	return fr == 0.5
}

// a NaN operand gives NaN; a NaN result needs a NaN operand or an infinite/zero operand
func nanAx(t, a, b *Term) []*Term {
	return []*Term{tImp(tOr(fnan(a), fnan(b)), fnan(t))}
}

// infScale: a = ±Inf multiplied or divided by b.
func infScale(t, a, b *Term, mul bool) []*Term {
	if f, ok := isFC(a); ok && !math.IsInf(f, 0) {
		return nil
	}
	inf := mkRat(infRat)
	ninf := rNeg(inf)
	z := rZero()
	nn := tAnd(tNot(fnan(a)), tNot(fnan(b)))
	if !mul {
		nn = tAnd(tNot(fnan(a)), ffinite(b))
	}
	is := func(v *Term) *Term { return tAnd(tNot(fnan(t)), tEq(fval(t), v)) }
	return []*Term{
		tImp(tAnd(nn, tEq(fval(a), inf), tLt(z, fval(b))), is(inf)),
		tImp(tAnd(nn, tEq(fval(a), inf), tLt(fval(b), z)), is(ninf)),
		tImp(tAnd(nn, tEq(fval(a), ninf), tLt(z, fval(b))), is(ninf)),
		tImp(tAnd(nn, tEq(fval(a), ninf), tLt(fval(b), z)), is(inf)),
	}
}

func infAdd(t, a, b *Term) []*Term {
	inf := mkRat(infRat)
	ninf := rNeg(inf)
	nn := tAnd(tNot(fnan(a)), tNot(fnan(b)))
	return []*Term{
		tImp(tAnd(nn, tEq(fval(a), inf), tNot(tEq(fval(b), ninf))), tAnd(tNot(fnan(t)), tEq(fval(t), inf))),
		tImp(tAnd(nn, tEq(fval(b), inf), tNot(tEq(fval(a), ninf))), tAnd(tNot(fnan(t)), tEq(fval(t), inf))),
		tImp(tAnd(nn, tEq(fval(a), ninf), tNot(tEq(fval(b), inf))), tAnd(tNot(fnan(t)), tEq(fval(t), ninf))),
		tImp(tAnd(nn, tEq(fval(b), ninf), tNot(tEq(fval(a), inf))), tAnd(tNot(fnan(t)), tEq(fval(t), ninf))),
	}
}

// roundAx: t is the rounding of the exact real e.
func roundAx(t, e *Term, level int, consts []*Term, near ...*Term) []*Term {
	v := fval(t)
	out := []*Term{tNot(fnan(t))}
	add := func(c *Term) {
		out = append(out, tImp(tLe(e, c), tLe(v, c)), tImp(tLe(c, e), tLe(c, v)))
	}
	mx := math.MaxFloat64
	if t.sort == "F32" {
		mx = math.MaxFloat32
	}
	lim := new(big.Rat).SetFloat64(mx)
	add(mkRat(lim))
	add(mkRat(new(big.Rat).Neg(lim)))
	for _, c := range consts {
		if t.sort == "F32" && c.r != nil {
			// only constants representable in float32 are rounding-stable
			f, _ := c.r.Float64()
			if float64(float32(f)) != f {
				continue
			}
		}
		add(c)
	}
	if level >= 2 {
		for _, c := range near {
			if c.r == nil {
				add(c)
			}
		}
	}
	if level >= 3 {
		// unit roundoff
		u := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 53))
		if t.sort == "F32" {
			u = new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 24))
		}
		// one and minus one absorb half a unit in the last place
		h := new(big.Rat).Add(big.NewRat(1, 1), u)
		out = append(out, tImp(tLe(e, mkRat(h)), tLe(v, rInt(1))), tImp(tLe(mkRat(new(big.Rat).Neg(h)), e), tLe(rInt(-1), v)))
		eta := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), 140))
		ae := tIte(tLe(rZero(), e), e, rNeg(e))
		bound := rAdd(rMul(mkRat(u), ae), mkRat(eta))
		big1 := mkRat(new(big.Rat).SetInt(new(big.Int).Lsh(big.NewInt(1), 120)))
		out = append(out, tImp(tLe(ae, big1), tAnd(tLe(rAdd(v, rNeg(e)), bound), tLe(rAdd(e, rNeg(v)), bound))))
	}
	return out
}

func prodAx(t, p, q *Term) []*Term {
	z, one, m1 := rZero(), rInt(1), rInt(-1)
	var out []*Term
	out = append(out,
		tImp(tAnd(tLe(z, p), tLe(z, q)), tLe(z, t)),
		tImp(tAnd(tLe(p, z), tLe(q, z)), tLe(z, t)),
		tImp(tAnd(tLe(z, p), tLe(q, z)), tLe(t, z)),
		tImp(tAnd(tLe(p, z), tLe(z, q)), tLe(t, z)),
		tImp(tOr(tEq(p, z), tEq(q, z)), tEq(t, z)),
		tImp(tEq(p, one), tEq(t, q)),
		tImp(tEq(q, one), tEq(t, p)),
	)
	half := func(p, q *Term) {
		// |p| <= 1 : |t| <= |q|
		g := tAnd(tLe(m1, p), tLe(p, one))
		out = append(out,
			tImp(tAnd(g, tLe(z, q)), tAnd(tLe(rNeg(q), t), tLe(t, q))),
			tImp(tAnd(g, tLe(q, z)), tAnd(tLe(q, t), tLe(t, rNeg(q)))),
			tImp(tAnd(tLe(one, p), tLe(z, q)), tLe(q, t)),
			tImp(tAnd(tLe(one, p), tLe(q, z)), tLe(t, q)),
		)
	}
	half(p, q)
	if p != q {
		half(q, p)
		out = append(out, tImp(tEq(p, q), tLe(z, t)))
	}
	return out
}

func quotAx(t, p, q *Term) []*Term {
	z := rZero()
	nq := rNeg(q)
	out := []*Term{
		tImp(tAnd(tLe(z, p), tLt(z, q)), tLe(z, t)),
		tImp(tAnd(tLe(p, z), tLt(q, z)), tLe(z, t)),
		tImp(tAnd(tLe(z, p), tLt(q, z)), tLe(t, z)),
		tImp(tAnd(tLe(p, z), tLt(z, q)), tLe(t, z)),
		tImp(tAnd(tLt(z, q), tLe(p, q)), tLe(t, rInt(1))),
		tImp(tAnd(tLt(z, q), tLe(q, p)), tLe(rInt(1), t)),
		tImp(tAnd(tLt(z, q), tLe(nq, p)), tLe(rInt(-1), t)),
		tImp(tAnd(tLt(z, q), tEq(p, q)), tEq(t, rInt(1))),
		tImp(tAnd(tLt(z, q), tEq(p, z)), tEq(t, z)),
		tImp(tAnd(tLt(z, q), tLt(z, p)), tLt(z, t)),
		tImp(tAnd(tLt(z, q), tLt(p, z)), tLt(t, z)),
		tImp(tAnd(tLe(rInt(1), q), tLe(z, p)), tLe(t, p)),
	}
	if nlMode {
		out = append(out, tImp(tNot(tEq(q, z)), tEq(rMul(t, q), p)))
	}
	return out
}

// exactOf gives the guard and the exact real value a rounding operation rounds.
func exactOf(t *Term) (g, e *Term) {
	switch t.op {
	case "fadd32", "fadd64":
		a, b := t.args[0], t.args[1]
		return tAnd(ffinite(a), ffinite(b)), rAdd(fval(a), fval(b))
	case "fmul32", "fmul64":
		a, b := t.args[0], t.args[1]
		return tAnd(ffinite(a), ffinite(b)), rprod(fval(a), fval(b))
	case "fdiv32", "fdiv64":
		a, b := t.args[0], t.args[1]
		return tAnd(ffinite(a), ffinite(b), tNot(tEq(fval(b), rZero()))), rdiv(fval(a), fval(b))
	case "fnarrow":
		return ffinite(t.args[0]), fval(t.args[0])
	case "i2f32", "i2f64":
		return tTrue, toReal(t.args[0])
	}
	return nil, nil
}

// pairAxioms: rounding is monotone, and so are products and quotients that
// share an operand.
func pairAxioms(ts []*Term) []*Term {
	type re struct{ t, g, e *Term }
	by := map[string][]re{}
	var prods, quots []*Term
	for _, t := range ts {
		if g, e := exactOf(t); e != nil {
			by[t.sort] = append(by[t.sort], re{t, g, e})
		}
		if t.op == "rprod" {
			prods = append(prods, t)
		}
		if t.op == "rquot" {
			quots = append(quots, t)
		}
	}
	var out []*Term
	z := rZero()
	n := 0
	for _, srt := range []string{"F32", "F64"} {
		l := by[srt]
		for i := range l {
			for j := i + 1; j < len(l) && n < 500; j++ {
				a, b := l[i], l[j]
				if a.e == b.e {
					continue
				}
				n++
				out = append(out, tImp(tAnd(a.g, b.g), tAnd(tImp(tLe(a.e, b.e), tLe(fval(a.t), fval(b.t))), tImp(tLe(b.e, a.e), tLe(fval(b.t), fval(a.t))))))
			}
		}
	}
	n = 0
	share := func(a, b, q, p, r *Term) {
		// a = p*q, b = r*q
		n++
		out = append(out,
			tImp(tAnd(tLe(z, q), tLe(p, r)), tLe(a, b)), tImp(tAnd(tLe(z, q), tLe(r, p)), tLe(b, a)),
			tImp(tAnd(tLe(q, z), tLe(p, r)), tLe(b, a)), tImp(tAnd(tLe(q, z), tLe(r, p)), tLe(a, b)))
	}
	for i := range prods {
		for j := i + 1; j < len(prods) && n < 300; j++ {
			a, b := prods[i], prods[j]
			for x := 0; x < 2; x++ {
				for y := 0; y < 2; y++ {
					if a.args[x] == b.args[y] {
						share(a, b, a.args[x], a.args[1-x], b.args[1-y])
					}
				}
			}
		}
	}
	n = 0
	for i := range quots {
		for j := i + 1; j < len(quots) && n < 300; j++ {
			a, b := quots[i], quots[j]
			p, q, r, s := a.args[0], a.args[1], b.args[0], b.args[1]
			if q == s {
				n++
				out = append(out, tImp(tAnd(tLt(z, q), tLe(p, r)), tLe(a, b)), tImp(tAnd(tLt(z, q), tLe(r, p)), tLe(b, a)),
					tImp(tAnd(tLt(q, z), tLe(p, r)), tLe(b, a)), tImp(tAnd(tLt(q, z), tLe(r, p)), tLe(a, b)))
			} else if p == r {
				n++
				g := tAnd(tLt(z, q), tLt(z, s))
				out = append(out, tImp(tAnd(g, tLe(z, p), tLe(q, s)), tLe(b, a)), tImp(tAnd(g, tLe(z, p), tLe(s, q)), tLe(a, b)),
					tImp(tAnd(g, tLe(p, z), tLe(q, s)), tLe(a, b)), tImp(tAnd(g, tLe(p, z), tLe(s, q)), tLe(b, a)))
			}
		}
	}
	return out
}
