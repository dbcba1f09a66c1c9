package main

import (
	"go/types"
	"math"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var f64T = types.Typ[types.Float64]
var intT = types.Typ[types.Int]

// unary math functions represented by an uninterpreted symbol with axioms
var mathUF = map[string]func(float64) float64{
	"math.Sqrt": math.Sqrt, "math.Exp": math.Exp, "math.Log": math.Log, "math.Log10": math.Log10, "math.Log2": math.Log2, "math.Log1p": math.Log1p, "math.Exp2": math.Exp2, "math.Expm1": math.Expm1,
	"math.Sin": math.Sin, "math.Cos": math.Cos, "math.Tan": math.Tan, "math.Tanh": math.Tanh, "math.Atan": math.Atan, "math.Sinh": math.Sinh, "math.Cosh": math.Cosh, "math.Asin": math.Asin, "math.Acos": math.Acos,
	"math.Floor": math.Floor, "math.Ceil": math.Ceil, "math.Trunc": math.Trunc, "math.Round": math.Round, "math.Cbrt": math.Cbrt,
}
var mathUF2 = map[string]func(a, b float64) float64{"math.Pow": math.Pow, "math.Atan2": math.Atan2, "math.Mod": math.Mod, "math.Hypot": math.Hypot, "math.Remainder": math.Remainder}

func fabsT(a *Term) *Term {
	if x, ok := isFC(a); ok {
		return fconst(math.Abs(x), a.sort)
	}
	n := "fabs" + sfx(a.sort)
	if a.op == n {
		return a
	}
	if a.op == "fneg"+sfx(a.sort) {
		return fabsT(a.args[0])
	}
	if a.op == "fwiden" {
		return mkUF("fwiden", "F64", fabsT(a.args[0]))
	}
	if a.op == "ite" && (a.args[1].op == "fwiden" || a.args[2].op == "fwiden") {
		return tIte(a.args[0], fabsT(a.args[1]), fabsT(a.args[2]))
	}
	return mkUF(n, a.sort, a)
}

func fmax(a, b *Term) *Term {
	inf := mkRat(infRat)
	z := fold2(a, b, math.Max, func(x, y float32) float32 { return float32(math.Max(float64(x), float64(y))) })
	if z != nil {
		return z
	}
	pi := func(a *Term) *Term { return tAnd(tNot(fnan(a)), tEq(fval(a), inf)) }
	return tIte(pi(a), a, tIte(pi(b), b, tIte(fnan(a), a, tIte(fnan(b), b, tIte(tLt(fval(a), fval(b)), b, a)))))
}
func fmin(a, b *Term) *Term {
	ninf := rNeg(mkRat(infRat))
	z := fold2(a, b, math.Min, func(x, y float32) float32 { return float32(math.Min(float64(x), float64(y))) })
	if z != nil {
		return z
	}
	ni := func(a *Term) *Term { return tAnd(tNot(fnan(a)), tEq(fval(a), ninf)) }
	return tIte(ni(a), a, tIte(ni(b), b, tIte(fnan(a), a, tIte(fnan(b), b, tIte(tLt(fval(b), fval(a)), b, a)))))
}

// pure library functions kept as uninterpreted functions of their arguments
var pureUF = map[string]bool{
	"strings.ToLower": true, "strings.ToUpper": true, "strings.TrimSpace": true, "strings.TrimSuffix": true, "strings.TrimPrefix": true, "strings.HasSuffix": true, "strings.HasPrefix": true,
	"strings.Contains": true, "strings.EqualFold": true, "strings.Repeat": true, "strconv.ParseFloat": true, "strconv.Atoi": true, "strconv.Itoa": true, "strconv.FormatFloat": true, "strings.Index": true,
	"math/cmplx.Rect": true, "math/cmplx.Abs": true, "math/cmplx.Phase": true, "strings.Split": false,
}

func (x *Exec) errValue(st *State) Value {
	errT := types.Universe.Lookup("error").Type()
	if x.bnd > 0 {
		unsup("error value under a quantifier")
	}
	b := x.newBlock(st, "err")
	return Value{typ: errT, c: []*Term{mkInt(int64(x.p.errTag())), b, tZero}}
}

func (x *Exec) fresh(st *State, T types.Type, hint string) Value {
	if x.bnd > 0 {
		unsup("unspecified library result under a quantifier")
	}
	v := Value{typ: T}
	for _, c := range comps(T) {
		t := mkSym(hint, c.sort)
		if c.lo != nil {
			setRange(t, c.lo, c.hi)
		}
		v.c = append(v.c, t)
	}
	x.wellFormed(st, v, T)
	return v
}

// lib models the standard library functions that /repo calls.
func (x *Exec) lib(fr *Frame, b *ssa.BasicBlock, st *State, name string, fn *ssa.Function, args []Value) ([]Value, bool) {
	if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) {
		return nil, false
	}
	res := func(i int) types.Type { return fn.Signature.Results().At(i).Type() }
	if strings.HasPrefix(name, "math.") {
		if vs, ok := x.libMath(fr, st, name, args); ok {
			x.used["math"] = true
			return vs, true
		}
	}
	if pureUF[name] {
		x.used[name] = true
		return x.ufResults("lib@"+name, fn.Signature, args, st), true
	}
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		x.lockOp(fr, st, args[0], "lock")
		return nil, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock":
		x.lockOp(fr, st, args[0], "unlock")
		return nil, true
	case "(*sync.RWMutex).RLock":
		x.lockOp(fr, st, args[0], "rlock")
		return nil, true
	case "(*sync.RWMutex).RUnlock":
		x.lockOp(fr, st, args[0], "runlock")
		return nil, true
	case "(*sync.Mutex).TryLock", "(*sync.RWMutex).TryLock":
		unsup("TryLock")
	case "errors.New":
		return []Value{x.errValue(st)}, true
	case "fmt.Errorf":
		return []Value{x.errValue(st)}, true
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		x.used["fmt"] = true
		return []Value{x.fresh(st, types.Typ[types.String], "sprintf")}, true
	case "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "log.Printf", "log.Println":
		var out []Value
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			out = append(out, x.fresh(st, res(i), "io"))
		}
		return out, true
	case "time.Now", "time.Since":
		return []Value{x.fresh(st, res(0), "time")}, true
	case "math/rand.Float64", "(*math/rand.Rand).Float64":
		x.nilRecv(fr, st, name, args)
		v := x.fresh(st, f64T, "rand")
		x.fact(st, tAnd(tNot(fnan(v.c[0])), tLe(rZero(), fval(v.c[0])), tLt(fval(v.c[0]), rInt(1))))
		x.used["math/rand"] = true
		return []Value{v}, true
	case "math/rand.Float32", "(*math/rand.Rand).Float32":
		v := x.fresh(st, types.Typ[types.Float32], "rand")
		x.fact(st, tAnd(tNot(fnan(v.c[0])), tLe(rZero(), fval(v.c[0])), tLt(fval(v.c[0]), rInt(1))))
		return []Value{v}, true
	case "math/rand.Int63", "(*math/rand.Rand).Int63", "math/rand.Int":
		v := x.fresh(st, res(0), "rand")
		x.fact(st, tLe(tZero, v.c[0]))
		return []Value{v}, true
	case "(*math/rand.Rand).Intn", "math/rand.Intn":
		v := x.fresh(st, res(0), "rand")
		n := args[len(args)-1].c[0]
		x.obligation("safety", x.safeName(fr, "rand.Intn argument positive"), fr, st, tLt(tZero, n))
		x.fact(st, tAnd(tLe(tZero, v.c[0]), tLt(v.c[0], n)))
		return []Value{v}, true
	case "math/rand.New":
		blk := x.newBlock(st, "rand")
		return []Value{{typ: res(0), c: []*Term{blk, tZero}}}, true
	case "math/rand.NewSource":
		blk := x.newBlock(st, "randsrc")
		return []Value{{typ: res(0), c: []*Term{mkInt(int64(x.p.typeTag(types.NewPointer(types.Typ[types.Int64]))) + 1000000), blk, tZero}}}, true
	case "sort.Slice", "sort.SliceStable":
		x.sortSlice(fr, st, args[0], args[1], name == "sort.SliceStable")
		x.used[name] = true
		return nil, true
	case "encoding/binary.Write":
		return x.binaryWrite(fr, b, st, args), true
	case "encoding/binary.Read":
		return x.binaryRead(fr, b, st, args), true
	case "(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint64":
		n := map[string]int{"16": 2, "32": 4, "64": 8}[name[len(name)-2:]]
		x.used["encoding/binary"] = true
		buf := args[1]
		if x.spec == 0 {
			x.obligation("safety", x.safeName(fr, "index in range"), fr, st, tLe(mkInt(int64(n)), buf.c[2]))
		}
		return []Value{one(fn.Signature.Results().At(0).Type(), x.leDecode(st, buf, n))}, true
	case "(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint64":
		n := map[string]int{"16": 2, "32": 4, "64": 8}[name[len(name)-2:]]
		x.used["encoding/binary"] = true
		buf := args[1]
		x.obligation("safety", x.safeName(fr, "index in range"), fr, st, tLe(mkInt(int64(n)), buf.c[2]))
		for k := 0; k < n; k++ {
			x.heapSet2(st, elemRegion(types.Typ[types.Uint8])+"#", "Int", buf.c[0], tAdd(buf.c[1], mkInt(int64(k))), leByte(args[2].c[0], k, n))
		}
		return nil, true
	case "math/bits.Len", "math/bits.Reverse":
		return nil, false
	}
	if strings.HasPrefix(name, "(*sync/atomic.") {
		if fn.Name() != "Load" {
			x.guardAtomicWrite(fr, st, args[0])
		}
		return x.atomicMethod(fr, st, name, fn, args), true
	}
	if strings.HasPrefix(name, "sync/atomic.") {
		return x.atomicFunc(fr, st, name, fn, args), true
	}
	return nil, false
}

func (x *Exec) nilRecv(fr *Frame, st *State, name string, args []Value) {
	if strings.HasPrefix(name, "(*") {
		x.nilCheck(fr, st, args[0], "method call")
	}
}

func (x *Exec) libMath(fr *Frame, st *State, name string, args []Value) ([]Value, bool) {
	r := func(t *Term) ([]Value, bool) { return []Value{one(f64T, t)}, true }
	inf := mkRat(infRat)
	switch name {
	case "math.Abs":
		return r(fabsT(args[0].c[0]))
	case "math.Max":
		return r(fmax(args[0].c[0], args[1].c[0]))
	case "math.Min":
		return r(fmin(args[0].c[0], args[1].c[0]))
	case "math.IsNaN":
		return []Value{one(boolT, fnan(args[0].c[0]))}, true
	case "math.IsInf":
		a, s := args[0].c[0], args[1].c[0]
		nn := tNot(fnan(a))
		p := tAnd(nn, tEq(fval(a), inf))
		n := tAnd(nn, tEq(fval(a), rNeg(inf)))
		return []Value{one(boolT, tOr(tAnd(tGe(s, tZero), p), tAnd(tLe(s, tZero), n)))}, true
	case "math.Inf":
		return r(tIte(tGe(args[0].c[0], tZero), fconst64(math.Inf(1)), fconst64(math.Inf(-1))))
	case "math.NaN":
		return r(fconst64(math.NaN()))
	case "math.Float64bits":
		return []Value{one(types.Typ[types.Uint64], fbits(args[0].c[0]))}, true
	case "math.Float32bits":
		return []Value{one(types.Typ[types.Uint32], fbits(args[0].c[0]))}, true
	case "math.Float64frombits":
		return r(ffrombits(args[0].c[0], "F64"))
	case "math.Float32frombits":
		return []Value{one(types.Typ[types.Float32], ffrombits(args[0].c[0], "F32"))}, true
	case "math.Copysign":
		a, b := fabsT(args[0].c[0]), args[1].c[0]
		if f, ok := isFC(b); ok {
			if math.Signbit(f) {
				return r(fneg(a))
			}
			return r(a)
		}
		s := mkUF("signbit", "Bool", b)
		addTermFact(s, tImp(tAnd(tNot(fnan(b)), tLt(fval(b), rZero())), s))
		addTermFact(s, tImp(tAnd(tNot(fnan(b)), tLt(rZero(), fval(b))), tNot(s)))
		return r(tIte(s, fneg(a), a))
	case "math.Signbit":
		b := args[0].c[0]
		s := mkUF("signbit", "Bool", b)
		addTermFact(s, tImp(tAnd(tNot(fnan(b)), tLt(fval(b), rZero())), s))
		addTermFact(s, tImp(tAnd(tNot(fnan(b)), tLt(rZero(), fval(b))), tNot(s)))
		return []Value{one(boolT, s)}, true
	}
	if f, ok := mathUF[name]; ok {
		if c, ok := isFC(args[0].c[0]); ok {
			return r(fconst64(f(c)))
		}
		if a := args[0].c[0]; a.op == "fneg64" && oddFn[name] {
			return r(fneg(mkUF(strings.ReplaceAll(name, "math.", "m@"), "F64", a.args[0])))
		}
		return r(mkUF(strings.ReplaceAll(name, "math.", "m@"), "F64", args[0].c[0]))
	}
	if f, ok := mathUF2[name]; ok {
		c1, ok1 := isFC(args[0].c[0])
		c2, ok2 := isFC(args[1].c[0])
		if ok1 && ok2 {
			return r(fconst64(f(c1, c2)))
		}
		if a := args[0].c[0]; a.op == "fneg64" && name == "math.Mod" {
			return r(fneg(mkUF("m@Mod", "F64", a.args[0], args[1].c[0])))
		}
		return r(mkUF(strings.ReplaceAll(name, "math.", "m@"), "F64", args[0].c[0], args[1].c[0]))
	}
	return nil, false
}

// oddFn: functions with f(-x) = -f(x) exactly (their code works on |x|)
var oddFn = map[string]bool{"math.Sin": true, "math.Tan": true, "math.Tanh": true, "math.Atan": true, "math.Sinh": true, "math.Asin": true, "math.Mod": true, "math.Round": true, "math.Trunc": true}

func ratF(f float64) *Term {
	r := new(big.Rat)
	r.SetFloat64(f)
	return mkRat(r)
}

// libAxioms: trusted facts about the math library (stated for float64).
// libPairs relates applications of the transcendental functions to each other:
// up to a relative error of 1e-12, powers of a constant and logarithms are
// monotone, and 10^y * e = 10^(y + log10 e).
func libPairs(ts []*Term) []*Term {
	var pows, logs []*Term
	for _, t := range ts {
		switch t.op {
		case "m@Pow":
			if f, isc := isFC(t.args[0]); isc && f > 1 {
				pows = append(pows, t)
			}
		case "m@Log10":
			logs = append(logs, t)
		}
	}
	if len(pows) > 6 {
		pows = pows[:6]
	}
	if len(logs) > 6 {
		logs = logs[:6]
	}
	one, lim := rInt(1), rInt(280)
	near := func(b *Term) *Term { return tAnd(tNot(fnan(b)), tLe(rNeg(lim), fval(b)), tLe(fval(b), lim)) }
	slack := rMul(ratF(1+1e-12), one)
	var out []*Term
	for _, p := range pows {
		for _, q := range pows {
			if p == q || p.args[0] != q.args[0] {
				continue
			}
			y, z := p.args[1], q.args[1]
			if f, _ := isFC(p.args[0]); f <= 10 {
				out = append(out, tImp(tAnd(near(y), near(z), tLe(fval(y), fval(z))), tLe(fval(p), rMul(slack, fval(q)))))
			}
			if f, _ := isFC(p.args[0]); f == 10 {
				for _, l := range logs {
					e := l.args[0]
					g := tAnd(near(y), near(z), ffinite(e), tLt(ratF(1e-60), fval(e)), tLt(fval(e), ratF(1e60)))
					out = append(out, tImp(tAnd(g, tLe(rAdd(fval(y), fval(l)), rAdd(fval(z), ratF(1e-10)))), tLe(rprod(fval(p), fval(e)), rMul(ratF(1+1e-9), fval(q)))))
				}
			}
		}
	}
	// sin^2 + cos^2 = 1, and the order of sines and cosines on the first quadrant
	var trig []*Term
	for _, t := range ts {
		if (t.op == "m@Sin" || t.op == "m@Cos") && len(trig) < 6 {
			trig = append(trig, t)
		}
	}
	for i, p := range trig {
		for j, q := range trig {
			x, y := p.args[0], q.args[0]
			if x == y && p.op == "m@Sin" && q.op == "m@Cos" {
				s := rAdd(rprod(fval(p), fval(p)), rprod(fval(q), fval(q)))
				out = append(out, tImp(ffinite(x), tAnd(tLe(ratF(1-1e-12), s), tLe(s, ratF(1+1e-12)))))
			}
			if i == j || p.op != q.op {
				continue
			}
			g := tAnd(ffinite(x), ffinite(y), tLe(rZero(), fval(x)), tLe(fval(x), fval(y)), tLe(fval(y), ratF(1.5707963267948966)))
			if p.op == "m@Sin" {
				out = append(out, tImp(g, tLe(fval(p), rAdd(fval(q), ratF(1e-15)))))
			} else {
				out = append(out, tImp(g, tLe(fval(q), rAdd(fval(p), ratF(1e-15)))))
			}
		}
	}
	// monotone and odd functions
	var mono []*Term
	for _, t := range ts {
		switch t.op {
		case "m@Tanh", "m@Atan", "m@Exp", "m@Sin", "m@Mod", "m@Round", "m@Floor", "m@Ceil", "m@Trunc":
			if len(mono) < 6 {
				mono = append(mono, t)
			}
		}
	}
	quarter := ratF(1.5707963277) // a little beyond: the error there is below the slack
	for i, p := range mono {
		for j, q := range mono {
			if i == j || p.op != q.op {
				continue
			}
			x, y := p.args[0], q.args[0]
			if oddFn["math."+p.op[2:]] && i < j && (p.op != "m@Mod" || p.args[1] == q.args[1]) {
				out = append(out, tImp(tAnd(ffinite(x), ffinite(y), tEq(fval(y), rNeg(fval(x))), tNot(fnan(p))), tEq(fval(q), rNeg(fval(p)))))
			}
			switch p.op {
			case "m@Round", "m@Floor", "m@Ceil", "m@Trunc":
				out = append(out, tImp(tAnd(tNot(fnan(x)), tNot(fnan(y)), tLe(fval(x), fval(y))), tLe(fval(p), fval(q))))
			case "m@Tanh", "m@Atan":
				out = append(out, tImp(tAnd(tNot(fnan(x)), tNot(fnan(y)), tLe(fval(x), fval(y))), tLe(fval(p), rAdd(fval(q), ratF(1e-15)))))
			case "m@Exp":
				out = append(out, tImp(tAnd(tNot(fnan(x)), tNot(fnan(y)), tLe(fval(x), fval(y))), tLe(fval(p), rMul(ratF(1+1e-12), fval(q)))))
			case "m@Sin":
				g := tAnd(tLe(rNeg(quarter), fval(x)), tLe(fval(x), fval(y)), tLe(fval(y), quarter))
				out = append(out, tImp(tAnd(ffinite(x), ffinite(y), g), tLe(fval(p), rAdd(fval(q), ratF(1e-15)))))
			}
		}
	}
	// logarithm and power undo each other
	for _, p := range pows {
		if f, _ := isFC(p.args[0]); f != 10 {
			continue
		}
		for _, l := range logs {
			y, e := p.args[1], l.args[0]
			d := rAdd(fval(y), rNeg(fval(l)))
			g := tAnd(near(y), ffinite(e), tLt(ratF(1e-60), fval(e)), tLt(fval(e), ratF(1e60)))
			up, dn := tLe(d, ratF(1e-10)), tLe(ratF(-1e-10), d)
			out = append(out, tImp(tAnd(g, up), tLe(fval(p), rMul(ratF(1+1e-9), fval(e)))), tImp(tAnd(g, dn), tLe(rMul(ratF(1-1e-9), fval(e)), fval(p))))
			// and the other way round
			up, dn = tLe(fval(e), rMul(ratF(1+1e-9), fval(p))), tLe(rMul(ratF(1-1e-9), fval(p)), fval(e))
			out = append(out, tImp(tAnd(g, up), tLe(fval(l), rAdd(fval(y), ratF(1e-9)))), tImp(tAnd(g, dn), tLe(rAdd(fval(y), ratF(-1e-9)), fval(l))))
		}
	}
	for _, p := range logs {
		for _, q := range logs {
			if p == q {
				continue
			}
			x, y := p.args[0], q.args[0]
			g := tAnd(ffinite(x), ffinite(y), tLt(rZero(), fval(x)), tLe(fval(x), fval(y)))
			out = append(out, tImp(g, tLe(fval(p), rAdd(fval(q), ratF(1e-12)))))
		}
	}
	return out
}

func libAxioms(t *Term, level int) []*Term {
	if !strings.HasPrefix(t.op, "m@") {
		return nil
	}
	z, one := rZero(), rInt(1)
	inf := mkRat(infRat)
	ninf := rNeg(inf)
	a := t.args[0]
	v, av := fval(t), fval(a)
	na := fnan(a)
	ok := tNot(na)
	fin := ffinite(a)
	nt := tNot(fnan(t))
	imp := func(g ...*Term) *Term { return tImp(tAnd(g[:len(g)-1]...), g[len(g)-1]) }
	var out []*Term
	p := func(ts ...*Term) { out = append(out, ts...) }
	if len(t.args) == 1 {
		p(imp(na, fnan(t)))
	}
	switch t.op[2:] {
	case "Sqrt":
		p(imp(ok, tLe(z, av), tAnd(nt, tLe(z, v))), imp(ok, tLt(av, z), fnan(t)),
			imp(ok, tLe(z, av), tLe(av, one), tAnd(tLe(v, one), tLe(av, v))),
			imp(ok, tLe(one, av), tAnd(tLe(one, v), tLe(v, av))),
			imp(ok, tLt(z, av), tLt(z, v)), imp(ok, tEq(av, z), tEq(v, z)), imp(fin, tLt(v, inf)))
	case "Exp":
		p(imp(ok, tAnd(nt, tLe(z, v))), imp(ok, tLe(av, z), tLe(v, one)), imp(ok, tLe(z, av), tLe(one, v)),
			imp(ok, tLe(av, ratF(700)), tLt(v, inf)), imp(ok, tLe(ratF(-700), av), tLt(z, v)),
			imp(ok, tLe(av, ratF(-1e-15)), tLt(v, one)), imp(ok, tLe(ratF(1e-15), av), tLt(one, v)),
			// above its tangent at 0, below its chord between -1 and 0
			imp(fin, tLe(rAdd(rAdd(one, av), ratF(-1e-15)), v)), imp(ok, tLe(rInt(-1), av), tLe(av, z), tLe(v, rAdd(rAdd(one, rMul(ratF(0.632), av)), ratF(1e-15)))), imp(ok, tLe(av, rInt(-1)), tLe(v, ratF(0.368))))
	case "Exp2":
		p(imp(ok, tAnd(nt, tLe(z, v))), imp(ok, tLe(av, z), tLe(v, one)), imp(ok, tLe(z, av), tLe(one, v)))
	case "Log", "Log10", "Log2":
		p(imp(ok, tLe(z, av), nt), imp(ok, tLt(av, z), fnan(t)), imp(ok, tLe(one, av), tLe(z, v)), imp(ok, tLe(z, av), tLe(av, one), tLe(v, z)),
			imp(ok, tLt(z, av), tLt(av, inf), tAnd(tLt(ninf, v), tLt(v, inf))), imp(ok, tEq(av, z), tEq(v, ninf)), imp(ok, tEq(av, inf), tEq(v, inf)),
			imp(ok, tLt(z, av), tLt(av, inf), tAnd(tLe(ratF(-1100), v), tLe(v, ratF(1100)))))
		if t.op[2:] == "Log10" {
			for _, k := range []int{-60, -46, -10, 10, 20, 46, 60} {
				c, kk := ratF(math.Pow(10, float64(k))), ratF(float64(k))
				p(imp(ok, tLt(z, av), tLe(av, c), tLe(v, rAdd(kk, ratF(1e-12)))), imp(ok, tLe(c, av), tLe(rAdd(kk, ratF(-1e-12)), v)))
			}
		}
	case "Sin", "Cos":
		p(imp(fin, tAnd(nt, tLe(rInt(-1), v), tLe(v, one))), imp(tNot(fin), fnan(t)))
		if t.op[2:] == "Cos" {
			p(imp(ok, tEq(av, z), tEq(v, one)))
		} else {
			p(imp(ok, tEq(av, z), tEq(v, z)))
		}
		// never further from the value at 0, a quarter, a half and a whole right angle than the argument is
		for _, r := range []float64{0, math.Pi / 4, math.Pi / 2} {
			c := math.Cos(r)
			if t.op[2:] == "Sin" {
				c = math.Sin(r)
			}
			d := rAdd(av, rNeg(ratF(r)))
			e := rAdd(v, rNeg(ratF(c)))
			eps := ratF(1e-15)
			p(imp(fin, tLe(rZero(), d), tAnd(tLe(e, rAdd(d, eps)), tLe(rNeg(rAdd(d, eps)), e))), imp(fin, tLe(d, rZero()), tAnd(tLe(e, rAdd(rNeg(d), eps)), tLe(rAdd(d, rNeg(eps)), e))))
		}
		// sign on the first quadrant / half period
		half := ratF(1.5707963267948966)
		if t.op[2:] == "Cos" {
			p(imp(fin, tLe(rNeg(half), av), tLe(av, half), tLe(z, v)))
		} else {
			p(imp(fin, tLe(z, av), tLe(av, ratF(3.141592653589793)), tLe(z, v)), imp(fin, tLe(av, z), tLe(ratF(-3.141592653589793), av), tLe(v, z)), imp(fin, tLe(ratF(3.141592653589793), av), tLe(av, ratF(6.283185307179586)), tLe(v, ratF(1e-15))))
		}
	case "Tan":
		p(imp(fin, nt))
	case "Tanh":
		p(imp(ok, tAnd(nt, tLe(rInt(-1), v), tLe(v, one))), imp(ok, tLe(z, av), tLe(z, v)), imp(ok, tLe(av, z), tLe(v, z)))
	case "Atan":
		h := ratF(1.5707963267948966)
		p(imp(ok, tAnd(nt, tLe(rNeg(h), v), tLe(v, h))), imp(ok, tLe(z, av), tLe(z, v)), imp(ok, tLe(av, z), tLe(v, z)))
	case "Floor", "Ceil", "Trunc", "Round":
		iv := mkRaw("to_int", "Int", av)
		fl := toReal(iv)
		switch t.op[2:] {
		case "Floor":
			p(imp(fin, tAnd(nt, tEq(v, fl))))
		case "Ceil":
			n := toReal(tSub(tZero, mkRaw("to_int", "Int", rNeg(av))))
			p(imp(fin, tAnd(nt, tEq(v, n))))
		case "Trunc":
			n := toReal(tSub(tZero, mkRaw("to_int", "Int", rNeg(av))))
			p(imp(fin, tAnd(nt, tEq(v, tIte(tLe(z, av), fl, n)))))
		case "Round":
			h := ratF(0.5)
			p(imp(fin, tAnd(nt, tLe(rAdd(v, rNeg(av)), h), tLe(rAdd(av, rNeg(v)), h), tEq(v, toReal(mkRaw("to_int", "Int", v))))))
		}
		p(imp(ok, tNot(fin), tAnd(nt, tEq(v, av))))
	case "Pow":
		b := t.args[1]
		bv := fval(b)
		okb := tAnd(ok, tNot(fnan(b)))
		pos := tAnd(okb, tLt(z, av))
		p(imp(tAnd(okb, tLe(z, av)), tAnd(nt, tLe(z, v))), // a >= 0
			imp(pos, tLe(one, av), tLe(z, bv), tLe(one, v)), imp(pos, tLe(one, av), tLe(bv, z), tLe(v, one)),
			imp(pos, tLe(av, one), tLe(z, bv), tLe(v, one)), imp(pos, tLe(av, one), tLe(bv, z), tLe(one, v)),
			imp(tNot(fnan(b)), tEq(bv, z), tAnd(nt, tEq(v, one))), imp(okb, tEq(bv, one), tAnd(nt, tEq(v, av))),
			imp(okb, tEq(av, z), tLt(z, bv), tEq(v, z)))
		if f, isc := isFC(a); isc && f > 1 {
			// finite and positive for moderate exponents
			lim := 300 * math.Ln10 / math.Log(f)
			p(imp(okb, tLe(ratF(-lim), bv), tLe(bv, ratF(lim)), tAnd(tLt(z, v), tLt(v, inf))))
			for _, k := range []float64{-20, -10, -5, 5, 10, 20} {
				w := math.Pow(f, k)
				if w < 1e-100 || w > 1e100 {
					continue
				}
				p(imp(okb, tLe(ratF(k), bv), tLe(ratF(w*(1-1e-12)), v)), imp(okb, tLe(bv, ratF(k)), tLe(v, ratF(w*(1+1e-12)))))
			}
			p(imp(okb, tLe(ratF(0.01), bv), tLt(one, v)), imp(okb, tLe(bv, ratF(-0.01)), tLt(v, one)))
		}
	case "Atan2":
		b := t.args[1]
		h := ratF(3.1415926535897936)
		p(imp(tAnd(ok, tNot(fnan(b))), tAnd(nt, tLe(rNeg(h), v), tLe(v, h))))
	case "Mod":
		b := t.args[1]
		bv := fval(b)
		okb := tAnd(fin, ffinite(b), tNot(tEq(bv, z)))
		p(imp(okb, nt), imp(okb, tLe(z, av), tAnd(tLe(z, v), tLe(v, av))), imp(okb, tLe(av, z), tAnd(tLe(v, z), tLe(av, v))),
			imp(okb, tLt(z, bv), tAnd(tLt(v, bv), tLt(rNeg(bv), v))), imp(okb, tLt(av, bv), tLt(rNeg(bv), av), tEq(v, av)))
	}
	return out
}

// ---- atomics ----

func (x *Exec) atomicField(fr *Frame, st *State, p Value) (Value, types.Type) {
	T := p.typ.Underlying().(*types.Pointer).Elem()
	S := T.Underlying().(*types.Struct)
	for i := 0; i < S.NumFields(); i++ {
		if S.Field(i).Name() == "v" {
			x.nilCheck(fr, st, p, "atomic")
			return x.fieldPtr(p, T, i), S.Field(i).Type()
		}
	}
	unsup("atomic type %s", T)
	return Value{}, nil
}

func (x *Exec) atomicMethod(fr *Frame, st *State, name string, fn *ssa.Function, args []Value) []Value {
	x.inAtomic++
	defer func() { x.inAtomic-- }()
	p, T := x.atomicField(fr, st, args[0])
	m := fn.Name()
	isBool := strings.Contains(name, "atomic.Bool)")
	get := func() Value { return x.load(fr, st, p, T) }
	toB := func(v Value) Value {
		if isBool {
			return one(boolT, tNot(tEq(v.c[0], tZero)))
		}
		return Value{typ: fn.Signature.Results().At(0).Type(), c: v.c}
	}
	fromB := func(v Value) Value {
		if isBool {
			return one(T, tIte(v.c[0], tOne, tZero))
		}
		return Value{typ: T, c: v.c}
	}
	switch m {
	case "Load":
		return []Value{toB(get())}
	case "Store":
		x.store(fr, st, p, fromB(args[1]), T)
		return nil
	case "Swap":
		o := get()
		x.store(fr, st, p, fromB(args[1]), T)
		return []Value{toB(o)}
	case "Add":
		n := one(T, wrapTo(tAdd(get().c[0], args[1].c[0]), T))
		x.store(fr, st, p, n, T)
		return []Value{n}
	case "CompareAndSwap":
		o := get()
		eq := tEq(o.c[0], fromB(args[1]).c[0])
		x.store(fr, st, p, x.iteValue(eq, fromB(args[2]), o), T)
		return []Value{one(boolT, eq)}
	}
	unsup("%s", name)
	return nil
}

func (x *Exec) atomicFunc(fr *Frame, st *State, name string, fn *ssa.Function, args []Value) []Value {
	x.inAtomic++
	defer func() { x.inAtomic-- }()
	p := args[0]
	T := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
	x.nilCheck(fr, st, p, "atomic")
	m := fn.Name()
	switch {
	case strings.HasPrefix(m, "Load"):
		return []Value{x.load(fr, st, p, T)}
	case strings.HasPrefix(m, "Store"):
		x.store(fr, st, p, args[1], T)
		return nil
	case strings.HasPrefix(m, "Add"):
		n := one(T, wrapTo(tAdd(x.load(fr, st, p, T).c[0], args[1].c[0]), T))
		x.store(fr, st, p, n, T)
		return []Value{n}
	case strings.HasPrefix(m, "Swap"):
		o := x.load(fr, st, p, T)
		x.store(fr, st, p, args[1], T)
		return []Value{o}
	case strings.HasPrefix(m, "CompareAndSwap"):
		o := x.load(fr, st, p, T)
		eq := tEq(o.c[0], args[1].c[0])
		x.store(fr, st, p, x.iteValue(eq, args[2], o), T)
		return []Value{one(boolT, eq)}
	}
	unsup("%s", name)
	return nil
}

// ---- sorting ----

// sortSlice models sort.Slice / sort.SliceStable: the slice is permuted in
// place and the result is ordered by less (assumed a strict weak order, the
// documented precondition); SliceStable keeps equal elements in order.
func (x *Exec) sortSlice(fr *Frame, st *State, sv, less Value, stable bool) {
	if x.bnd > 0 {
		unsup("sort under a quantifier")
	}
	if sv.dyn == nil {
		unsup("sort of unknown slice")
	}
	s := *sv.dyn
	E := s.typ.Underlying().(*types.Slice).Elem()
	n := s.c[2]
	off := s.c[1]
	id := mkSym("sort", "Int")
	perm := func(i *Term) *Term { return mkUF("perm@"+id.op, "Int", i) }
	inv := func(i *Term) *Term { return mkUF("iperm@"+id.op, "Int", i) }
	type pair struct{ old, new *Term }
	var ps []pair
	for _, m := range x.elemMaps(E) {
		old := x.heapInner(st, m.name, m.sort, s.c[0])
		nw := mkSym("sorted", old.sort)
		ps = append(ps, pair{old, nw})
	}
	in := func(i *Term) *Term { return tAnd(tLe(off, i), tLt(i, tAdd(off, n))) }
	// indices are absolute (offset included)
	i := mkBound("i", "Int")
	var eqs []*Term
	for _, p := range ps {
		eqs = append(eqs, tEq(tSelect(p.new, i), tSelect(p.old, perm(i))))
	}
	x.fact(st, mkForall(i, tImp(in(i), tAnd(append(eqs, in(perm(i)), tEq(inv(perm(i)), i))...))))
	j := mkBound("j", "Int")
	var eqs2 []*Term
	for _, p := range ps {
		eqs2 = append(eqs2, tEq(tSelect(p.new, inv(j)), tSelect(p.old, j)))
	}
	// triggered by the old element
	x.fact(st, mkForall(j, tImp(in(j), tAnd(append(eqs2, in(inv(j)), tEq(perm(inv(j)), j))...))))
	k := mkBound("k", "Int")
	for _, p := range ps {
		x.fact(st, mkForall(k, tImp(tNot(in(k)), tEq(tSelect(p.new, k), tSelect(p.old, k)))))
	}
	for q, m := range x.elemMaps(E) {
		x.heapSetInner(st, m.name, m.sort, s.c[0], ps[q].new)
	}
	// order
	a, b := mkBound("a", "Int"), mkBound("b", "Int")
	setRange(a, new(big.Int), maxLen)
	setRange(b, new(big.Int), maxLen)
	lt := func(p, q *Term) *Term {
		// less is applied to relative indices
		rp, rq := mkBound("p", "Int"), mkBound("q", "Int")
		setRange(rp, new(big.Int), maxLen)
		setRange(rq, new(big.Int), maxLen)
		t := x.evalPred(fr, st, less, []Value{one(intT, rp), one(intT, rq)})
		return subst(t, map[*Term]*Term{rp: tSub(p, off), rq: tSub(q, off)}, map[*Term]*Term{})
	}
	g := tAnd(tLe(off, a), tLt(a, b), tLt(b, tAdd(off, n)))
	x.fact(st, mkForall(a, mkForall(b, tImp(g, tNot(lt(b, a))))))
	if stable {
		x.fact(st, mkForall(a, mkForall(b, tImp(tAnd(g, tNot(lt(a, b))), tLt(perm(a), perm(b))))))
		// the same from the original side: inverse indices of equal elements keep order
		c, d := mkBound("c", "Int"), mkBound("d", "Int")
		_ = c
		_ = d
	}
	x.sorts = append(x.sorts, sortInfo{s: s, perm: "perm@" + id.op, inv: "iperm@" + id.op})
}

type sortInfo struct {
	s         Value
	perm, inv string
}

// ---- encoding/binary ----

func (x *Exec) binSize(T types.Type) int {
	if b, _, ok := intInfo(T); ok {
		return int(b / 8)
	}
	switch floatSort(T) {
	case "F32":
		return 4
	case "F64":
		return 8
	}
	unsup("binary encoding of %s", T)
	return 0
}

// leByte(v,k): byte k of the little-endian encoding of v (an integer of n bytes, unsigned)
func leByte(v *Term, k, n int) *Term {
	if v.i != nil {
		m := new(big.Int).Rsh(v.i, uint(8*k))
		return mkBig(m.And(m, big.NewInt(255)))
	}
	t := mkUF("lebyte"+itoa(n), "Int", v, mkInt(int64(k)))
	setRange(t, new(big.Int), big.NewInt(255))
	if k == 0 && !v.bound {
		var bs []*Term
		for j := 0; j < n; j++ {
			bs = append(bs, mkUF("lebyte"+itoa(n), "Int", v, mkInt(int64(j))))
		}
		addTermFact(t, tEq(mkUF("ledec"+itoa(n), "Int", bs...), v))
	}
	return t
}

func itoa(n int) string { return big.NewInt(int64(n)).String() }

func toUnsigned(v *Term, T types.Type) *Term {
	bits, signed, _ := intInfo(T)
	if !signed {
		return v
	}
	if v.i != nil {
		return mkBig(new(big.Int).Mod(v.i, new(big.Int).Lsh(big.NewInt(1), bits)))
	}
	return tIte(tGe(v, tZero), v, tAdd(v, pow2(bits)))
}

func toSigned(v *Term, T types.Type) *Term {
	bits, signed, _ := intInfo(T)
	if !signed {
		return v
	}
	return tIte(tLt(v, pow2(bits-1)), v, tSub(v, pow2(bits)))
}

func (x *Exec) isLittle(v Value) {
	if v.dyn == nil || !strings.Contains(typeKey(v.dyn.typ), "littleEndian") {
		unsup("byte order")
	}
}

func (x *Exec) binaryWrite(fr *Frame, b *ssa.BasicBlock, st *State, args []Value) []Value {
	x.used["encoding/binary"] = true
	x.isLittle(args[1])
	if args[2].dyn == nil {
		unsup("binary.Write of unknown value")
	}
	d := *args[2].dyn
	T := d.typ
	if pt, ok := T.Underlying().(*types.Pointer); ok {
		d = x.load(fr, st, d, pt.Elem())
		T = pt.Elem()
	}
	n := x.binSize(T)
	var u *Term
	if floatSort(T) != "" {
		u = fbits(d.c[0])
	} else {
		u = toUnsigned(d.c[0], T)
	}
	blk := x.newBlock(st, "bytes")
	inner := tConstArr(arr("Int", "Int"), tZero)
	for k := 0; k < n; k++ {
		inner = tStore(inner, mkInt(int64(k)), leByte(u, k, n))
	}
	byteT := types.Typ[types.Uint8]
	x.heapSetInner(st, elemRegion(byteT)+"#", "Int", blk, inner)
	buf := Value{typ: types.NewSlice(byteT), c: []*Term{blk, tZero, mkInt(int64(n)), mkInt(int64(n))}}
	it := args[0].typ.Underlying().(*types.Interface)
	var wm *types.Func
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == "Write" {
			wm = it.Method(i)
		}
	}
	r := x.invoke(fr, b, args[0], wm, []Value{buf}, st)
	return []Value{r[1]}
}

func (x *Exec) binaryRead(fr *Frame, b *ssa.BasicBlock, st *State, args []Value) []Value {
	x.used["encoding/binary"] = true
	x.isLittle(args[1])
	if args[2].dyn == nil {
		unsup("binary.Read into unknown value")
	}
	d := *args[2].dyn
	pt, ok := d.typ.Underlying().(*types.Pointer)
	if !ok {
		unsup("binary.Read into %s", d.typ)
	}
	T := pt.Elem()
	n := x.binSize(T)
	byteT := types.Typ[types.Uint8]
	blk := x.newBlock(st, "bytes")
	x.zeroInitBlock(st, blk, byteT)
	buf := Value{typ: types.NewSlice(byteT), c: []*Term{blk, tZero, mkInt(int64(n)), mkInt(int64(n))}}
	rf := x.p.findFunc("io", "ReadFull")
	if rf == nil {
		unsup("io.ReadFull not loaded")
	}
	rs := x.callFn(fr, b, rf, []Value{args[0], buf}, nil, st)
	err := rs[1]
	u := x.leDecode(st, buf, n)
	var v Value
	if fs := floatSort(T); fs != "" {
		v = one(T, ffrombits(u, fs))
	} else {
		v = one(T, toSigned(u, T))
		if bits, signed, _ := intInfo(T); signed {
			lo, hi := bitsRange(bits, true)
			setRange(v.c[0], lo, hi)
		}
	}
	good := tEq(err.c[0], tZero)
	old := x.load(fr, st, d, T)
	x.store(fr, st, d, x.iteValue(good, v, old), T)
	return []Value{err}
}

// leDecode is the value of the first n bytes of buf.
func (x *Exec) leDecode(st *State, buf Value, n int) *Term {
	inner := x.heapInner(st, elemRegion(types.Typ[types.Uint8])+"#", "Int", buf.c[0])
	var bs []*Term
	for k := 0; k < n; k++ {
		e := tSelect(inner, tAdd(buf.c[1], mkInt(int64(k))))
		typeRange(e, new(big.Int), big.NewInt(255))
		bs = append(bs, e)
	}
	val := new(big.Int)
	for k := n - 1; k >= 0 && val != nil; k-- {
		if bs[k].i == nil {
			val = nil
		} else {
			val.Add(val.Lsh(val, 8), bs[k].i)
		}
	}
	if val != nil {
		return mkBig(val)
	}
	// the bytes of one encoded value
	if v := bs[0]; v.op == "lebyte"+itoa(n) {
		whole := true
		for k := range bs {
			whole = whole && bs[k].op == v.op && bs[k].args[0] == v.args[0] && bs[k].args[1] == mkInt(int64(k))
		}
		if whole {
			return v.args[0]
		}
	}
	u := mkUF("ledec"+itoa(n), "Int", bs...)
	setRange(u, new(big.Int), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(8*n)), big.NewInt(1)))
	for k := 0; k < n; k++ {
		addTermFact(u, tEq(mkUF("lebyte"+itoa(n), "Int", u, mkInt(int64(k))), bs[k]))
	}
	return u
}

func (p *Project) findFunc(pkg, name string) *ssa.Function {
	for _, pk := range p.prog.AllPackages() {
		if pk.Pkg.Path() == pkg {
			return pk.Func(name)
		}
	}
	return nil
}
