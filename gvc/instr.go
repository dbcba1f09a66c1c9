package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func one(t types.Type, c *Term) Value { return Value{typ: t, c: []*Term{c}} }

func (x *Exec) nilCheck(fr *Frame, st *State, p Value, what string) {
	if p.cell != nil || len(p.c) == 0 {
		return
	}
	if x.spec > 0 {
		return
	}
	g := tNot(tEq(p.c[0], tZero))
	if g == tTrue || isSub(p.c[0]) {
		return
	}
	x.obligation("safety", x.safeName(fr, "no nil dereference ("+what+")"), fr, st, g)
}

// registerAlloc: a struct variable that is only read and written, field by
// field or whole, never escapes and needs no place on the heap.
func (x *Exec) registerAlloc(in *ssa.Alloc, T types.Type) bool {
	if in.Heap || !isStruct(T) || !flatStruct(T) {
		return false
	}
	var ok func(v ssa.Value) bool
	ok = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.FieldAddr:
				if !ok(r) {
					return false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if r.Val == v {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	return ok(in)
}

// flatStruct: no function or array inside.
func flatStruct(T types.Type) bool {
	s := T.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		switch u := s.Field(i).Type().Underlying().(type) {
		case *types.Signature, *types.Array:
			return false
		case *types.Struct:
			if isReal(s.Field(i).Type()) || !flatStruct(s.Field(i).Type()) {
				return false
			}
			_ = u
		}
	}
	return true
}

func (x *Exec) execInstr(fr *Frame, b *ssa.BasicBlock, in ssa.Instruction, st *State) {
	switch in := in.(type) {
	case *ssa.Alloc:
		T := in.Type().Underlying().(*types.Pointer).Elem()
		if !isStruct(T) && !isArray(T) || isReal(T) || x.registerAlloc(in, T) {
			x.cellN++
			c := &Cell{id: x.cellN, typ: T, name: in.Comment}
			st.cells[c] = zeroValue(T)
			fr.vals[in] = Value{typ: in.Type(), cell: c}
			return
		}
		blk := x.newBlock(st, in.Comment)
		p := Value{typ: in.Type(), c: []*Term{blk, tZero}}
		x.zeroInit(st, p, T)
		fr.vals[in] = p
	case *ssa.BinOp:
		fr.vals[in] = x.binop(fr, st, in)
	case *ssa.UnOp:
		fr.vals[in] = x.unop(fr, st, in)
	case *ssa.Call:
		x.beforeCall(fr, b)
		vs := x.call(fr, b, &in.Call, st)
		fr.vals[in] = tupled(in.Type(), vs)
	case *ssa.ChangeInterface:
		v := x.val(fr, in.X)
		v.typ = in.Type()
		fr.vals[in] = v
	case *ssa.ChangeType:
		v := x.val(fr, in.X)
		if isReal(in.Type()) || isReal(in.X.Type()) {
			fr.vals[in] = x.convert(fr, st, v, in.X.Type(), in.Type())
			return
		}
		v.typ = in.Type()
		fr.vals[in] = v
	case *ssa.Convert:
		fr.vals[in] = x.convert(fr, st, x.val(fr, in.X), in.X.Type(), in.Type())
	case *ssa.Defer:
		d := deferred{cond: st.pc, call: &in.Call}
		x.prepDefer(fr, &d)
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			x.runDefer(fr, b, fr.defers[i], st)
		}
	case *ssa.Extract:
		fr.vals[in] = x.val(fr, in.Tuple).tup[in.Index]
	case *ssa.Field:
		fr.vals[in] = x.structField(x.val(fr, in.X), in.X.Type(), in.Field)
	case *ssa.FieldAddr:
		p := x.val(fr, in.X)
		x.nilCheck(fr, st, p, "field access")
		S := in.X.Type().Underlying().(*types.Pointer).Elem()
		fr.vals[in] = x.fieldPtr(p, S, in.Field)
		x.guardField(fr, st, in, fr.vals[in])
	case *ssa.IndexAddr:
		i := x.val(fr, in.Index).c[0]
		switch t := in.X.Type().Underlying().(type) {
		case *types.Slice:
			s := x.val(fr, in.X)
			x.boundsCheck(fr, st, i, s.c[2])
			fr.vals[in] = x.elemPtr(t.Elem(), s.c[0], tAdd(s.c[1], i))
		case *types.Pointer:
			a := t.Elem().Underlying().(*types.Array)
			p := x.val(fr, in.X)
			x.boundsCheck(fr, st, i, mkInt(a.Len()))
			fr.vals[in] = x.elemPtr(a.Elem(), p.c[0], tAdd(p.c[1], i))
		default:
			unsup("IndexAddr %s", in.X.Type())
		}
	case *ssa.Index:
		i := x.val(fr, in.Index).c[0]
		v := x.val(fr, in.X)
		switch t := in.X.Type().Underlying().(type) {
		case *types.Array:
			x.boundsCheck(fr, st, i, mkInt(t.Len()))
			r := Value{typ: in.Type()}
			for _, c := range v.c {
				r.c = append(r.c, tSelect(c, i))
			}
			x.wellFormed(st, r, in.Type())
			fr.vals[in] = r
		case *types.Basic:
			x.boundsCheck(fr, st, i, strLen(v.c[0]))
			fr.vals[in] = one(in.Type(), strAt(v.c[0], i))
		default:
			unsup("Index %s", in.X.Type())
		}
	case *ssa.Lookup:
		x.lookup(fr, st, in)
	case *ssa.MakeClosure:
		f := FuncVal{fn: in.Fn.(*ssa.Function)}
		for _, bnd := range in.Bindings {
			f.binds = append(f.binds, x.val(fr, bnd))
		}
		fr.vals[in] = Value{typ: in.Type(), fns: []FuncVal{f}}
	case *ssa.MakeInterface:
		fr.vals[in] = x.makeInterface(fr, st, x.val(fr, in.X), in.X.Type(), in.Type())
	case *ssa.MakeMap:
		blk := x.newBlock(st, "map")
		M := in.Type().Underlying().(*types.Map)
		ks := x.keySort(M.Key())
		k := "map:" + typeKey(M.Key()) + ":" + typeKey(M.Elem())
		x.mapSet(st, k+"!D", arr(ks, "Bool"), blk, tConstArr(arr(ks, "Bool"), tFalse))
		x.mapSet(st, k+"!N", "Int", blk, tZero)
		fr.vals[in] = one(in.Type(), blk)
	case *ssa.MakeSlice:
		n := x.val(fr, in.Len).c[0]
		cp := x.val(fr, in.Cap).c[0]
		x.obligation("safety", x.safeName(fr, "make: length in range"), fr, st, tAnd(tLe(tZero, n), tLe(n, cp)))
		E := in.Type().Underlying().(*types.Slice).Elem()
		blk := x.newBlock(st, "slice")
		x.fact(st, tLe(cp, mkBig(maxLen)))
		x.zeroInitBlock(st, blk, E)
		fr.vals[in] = Value{typ: in.Type(), c: []*Term{blk, tZero, n, cp}}
	case *ssa.MapUpdate:
		x.mapUpdate(fr, st, in)
	case *ssa.Next:
		x.mapNext(fr, st, in)
	case *ssa.Range:
		x.mapRange(fr, st, in)
	case *ssa.Slice:
		x.slice(fr, st, in)
	case *ssa.Store:
		p := x.val(fr, in.Addr)
		x.nilCheck(fr, st, p, "store")
		v := x.val(fr, in.Val)
		x.guardCheck(fr, st, in.Addr, true)
		x.store(fr, st, p, v, in.Val.Type())
	case *ssa.TypeAssert:
		x.typeAssert(fr, st, in)
	case *ssa.Go:
		unsup("go statement in %s", fr.fn)
	case *ssa.MakeChan, *ssa.Select, *ssa.Send:
		unsup("channel operation in %s", fr.fn)
	default:
		unsup("instruction %T in %s", in, fr.fn)
	}
}

func tupled(t types.Type, vs []Value) Value {
	if tp, ok := t.(*types.Tuple); ok {
		if tp.Len() == 0 {
			return Value{typ: t, isTup: true}
		}
		return Value{typ: t, isTup: true, tup: vs}
	}
	if len(vs) == 0 {
		return Value{typ: t}
	}
	return vs[0]
}

func (x *Exec) boundsCheck(fr *Frame, st *State, i, n *Term) {
	if x.spec > 0 {
		return
	}
	g := tAnd(tLe(tZero, i), tLt(i, n))
	if g == tTrue {
		return
	}
	x.obligation("safety", x.safeName(fr, "index in range"), fr, st, g)
}

func (x *Exec) structField(v Value, S types.Type, i int) Value {
	s := S.Underlying().(*types.Struct)
	k := 0
	for j := 0; j < i; j++ {
		k += len(comps(s.Field(j).Type()))
	}
	ft := s.Field(i).Type()
	return Value{typ: ft, c: v.c[k : k+len(comps(ft))]}
}

// wrap reduces an exact integer result to type t.
func wrapTo(r *Term, t types.Type) *Term {
	bits, signed, ok := intInfo(t)
	if !ok {
		return r
	}
	lo, hi := bitsRange(bits, signed)
	if rg := rangeOf(r); rg != nil && rg[0].Cmp(lo) >= 0 && rg[1].Cmp(hi) <= 0 {
		return r
	}
	two := new(big.Int).Lsh(big.NewInt(1), bits)
	if r.i != nil {
		m := new(big.Int).Mod(r.i, two)
		if signed && m.Cmp(hi) > 0 {
			m.Sub(m, two)
		}
		return mkBig(m)
	}
	var w *Term
	if signed {
		w = tSub(tModF(tAdd(r, mkBig(new(big.Int).Neg(lo))), mkBig(two)), mkBig(new(big.Int).Neg(lo)))
	} else {
		w = tModF(r, mkBig(two))
	}
	t2 := tIte(tAnd(tLe(mkBig(lo), r), tLe(r, mkBig(hi))), r, w)
	setRange(t2, lo, hi)
	return t2
}

func goDiv(a, b *Term) *Term {
	// truncated division from floor division
	if b.i != nil && b.i.Sign() > 0 {
		if r := rangeOf(a); r != nil && r[0].Sign() >= 0 {
			return tDivF(a, b)
		}
		return tIte(tGe(a, tZero), tDivF(a, b), tSub(tZero, tDivF(tSub(tZero, a), b)))
	}
	abs := func(t *Term) *Term {
		if r := rangeOf(t); r != nil && r[0].Sign() >= 0 {
			return t
		}
		return tIte(tGe(t, tZero), t, tSub(tZero, t))
	}
	q := tDivF(abs(a), abs(b))
	ra, rb := rangeOf(a), rangeOf(b)
	if ra != nil && rb != nil && ra[0].Sign() >= 0 && rb[0].Sign() >= 0 {
		return q
	}
	return tIte(tEq(tGe(a, tZero), tGe(b, tZero)), q, tSub(tZero, q))
}

func goRem(a, b *Term) *Term {
	if b.i != nil && b.i.Sign() > 0 {
		if r := rangeOf(a); r != nil && r[0].Sign() >= 0 {
			return tModF(a, b)
		}
		return tIte(tGe(a, tZero), tModF(a, b), tSub(tZero, tModF(tSub(tZero, a), b)))
	}
	ab := b
	if r := rangeOf(b); r == nil || r[0].Sign() < 0 {
		ab = tIte(tGe(b, tZero), b, tSub(tZero, b))
	}
	if r := rangeOf(a); r != nil && r[0].Sign() >= 0 {
		return tModF(a, ab)
	}
	return tIte(tGe(a, tZero), tModF(a, ab), tSub(tZero, tModF(tSub(tZero, a), ab)))
}

func pow2(k uint) *Term { return mkBig(new(big.Int).Lsh(big.NewInt(1), k)) }

func bitOf(a *Term, k uint) *Term { return tModF(tDivF(a, pow2(k)), mkInt(2)) }

// maskAnd computes a & c for a non-negative constant c.
func maskAnd(a *Term, c *big.Int) *Term {
	if c.Sign() == 0 {
		return tZero
	}
	// contiguous runs
	r := tZero
	n := uint(c.BitLen())
	i := uint(0)
	for i < n {
		if c.Bit(int(i)) == 0 {
			i++
			continue
		}
		j := i
		for j < n && c.Bit(int(j)) == 1 {
			j++
		}
		part := tModF(tDivF(a, pow2(i)), pow2(j-i))
		r = tAdd(r, tMul(pow2(i), part))
		i = j
	}
	return r
}

func (x *Exec) bitop(op token.Token, a, b *Term, T types.Type) *Term {
	bits, signed, _ := intInfo(T)
	lo, hi := bitsRange(bits, signed)
	if a.i != nil && b.i != nil {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.i, b.i)
		case token.OR:
			r.Or(a.i, b.i)
		case token.XOR:
			r.Xor(a.i, b.i)
		case token.AND_NOT:
			r.AndNot(a.i, b.i)
		}
		return wrapTo(mkBig(r), T)
	}
	if op != token.AND_NOT && a.i != nil {
		a, b = b, a
	}
	if b.i != nil && b.i.Sign() >= 0 {
		c := b.i
		switch op {
		case token.AND:
			return maskAnd(a, c)
		case token.OR: // a + c - (a & c)
			return tSub(tAdd(a, b), maskAnd(a, c))
		case token.XOR: // a + c - 2*(a & c)
			return tSub(tAdd(a, b), tMul(mkInt(2), maskAnd(a, c)))
		case token.AND_NOT:
			return tSub(a, maskAnd(a, c))
		}
	}
	if op != token.AND_NOT && a.id > b.id {
		a, b = b, a
	}
	// disjoint-bits or: hi<<k | lo with lo < 2^k
	if op == token.OR {
		if r := disjointOr(a, b); r != nil {
			return r
		}
		if r := disjointOr(b, a); r != nil {
			return r
		}
	}
	t := mkUF(fmt.Sprintf("bit_%s_%d", map[token.Token]string{token.AND: "and", token.OR: "or", token.XOR: "xor", token.AND_NOT: "andnot"}[op], bits), "Int", a, b)
	setRange(t, lo, hi)
	if !signed || (rangeNonNeg(a) && rangeNonNeg(b)) {
		addTermFact(t, tGe(t, tZero))
		switch op {
		case token.AND:
			addTermFact(t, tAnd(tLe(t, a), tLe(t, b)))
		case token.OR:
			addTermFact(t, tAnd(tGe(t, a), tGe(t, b), tLe(t, tAdd(a, b))))
		case token.XOR:
			addTermFact(t, tLe(t, tAdd(a, b)))
		case token.AND_NOT:
			addTermFact(t, tLe(t, a))
		}
	}
	return t
}

func rangeNonNeg(t *Term) bool {
	r := rangeOf(t)
	return r != nil && r[0].Sign() >= 0
}

func disjointOr(a, b *Term) *Term {
	// a multiple of 2^k, 0 <= b < 2^k
	r := rangeOf(b)
	if r == nil || r[0].Sign() < 0 || !rangeNonNeg(a) {
		return nil
	}
	k := uint(r[1].BitLen())
	p := new(big.Int).Lsh(big.NewInt(1), k)
	l := linOf(a)
	if new(big.Int).Mod(l.k, p).Sign() != 0 {
		return nil
	}
	for _, c := range l.c {
		if new(big.Int).Mod(c, p).Sign() != 0 {
			return nil
		}
	}
	return tAdd(a, b)
}

func (x *Exec) shift(fr *Frame, st *State, op token.Token, a, b *Term, T types.Type) *Term {
	bits, signed, _ := intInfo(T)
	if b.i == nil {
		t := mkUF(fmt.Sprintf("shift_%v_%d_%v", op == token.SHL, bits, signed), "Int", a, b)
		lo, hi := bitsRange(bits, signed)
		setRange(t, lo, hi)
		if a.i != nil && op == token.SHL {
			// constant shifted by a bounded amount: case split
			var r *Term = tZero
			for k := int(bits) - 1; k >= 0; k-- {
				r = tIte(tEq(b, mkInt(int64(k))), wrapTo(mkBig(new(big.Int).Lsh(a.i, uint(k))), T), r)
			}
			return r
		}
		return t
	}
	k := uint(b.i.Uint64())
	if op == token.SHL {
		if k >= bits {
			return tZero
		}
		return wrapTo(tMul(a, pow2(k)), T)
	}
	if k >= bits {
		if signed {
			return tIte(tGe(a, tZero), tZero, mkInt(-1))
		}
		return tZero
	}
	return tDivF(a, pow2(k))
}

func (x *Exec) binop(fr *Frame, st *State, in *ssa.BinOp) Value {
	a, b := x.val(fr, in.X), x.val(fr, in.Y)
	T := in.X.Type()
	R := in.Type()
	switch in.Op {
	case token.EQL:
		return one(R, x.equal(fr, st, a, b, T, in.Y.Type()))
	case token.NEQ:
		return one(R, tNot(x.equal(fr, st, a, b, T, in.Y.Type())))
	}
	if isReal(T) {
		p, q := a.c[0], b.c[0]
		switch in.Op {
		case token.ADD:
			return one(R, tAdd(p, q))
		case token.SUB:
			return one(R, tSub(p, q))
		case token.MUL:
			return one(R, x.realMul(p, q))
		case token.QUO:
			if q.r != nil && q.r.Sign() != 0 {
				return one(R, rMul(mkRat(new(big.Rat).Inv(q.r)), p))
			}
			return one(R, mkRaw("/", "Real", p, q))
		case token.LSS:
			return one(R, tLt(p, q))
		case token.LEQ:
			return one(R, tLe(p, q))
		case token.GTR:
			return one(R, tGt(p, q))
		case token.GEQ:
			return one(R, tGe(p, q))
		}
	}
	if floatSort(T) != "" {
		p, q := a.c[0], b.c[0]
		switch in.Op {
		case token.ADD:
			return one(R, fadd(p, q))
		case token.SUB:
			return one(R, fadd(p, fneg(q)))
		case token.MUL:
			return one(R, fmul(p, q))
		case token.QUO:
			return one(R, fdiv(p, q))
		case token.LSS:
			return one(R, flt(p, q))
		case token.LEQ:
			return one(R, fle(p, q))
		case token.GTR:
			return one(R, flt(q, p))
		case token.GEQ:
			return one(R, fle(q, p))
		}
	}
	if _, _, ok := intInfo(T); ok {
		p, q := a.c[0], b.c[0]
		switch in.Op {
		case token.ADD:
			return one(R, wrapTo(tAdd(p, q), R))
		case token.SUB:
			return one(R, wrapTo(tSub(p, q), R))
		case token.MUL:
			return one(R, wrapTo(tMul(p, q), R))
		case token.QUO:
			if q.i == nil || q.i.Sign() == 0 {
				x.obligation("safety", x.safeName(fr, "no division by zero"), fr, st, tNot(tEq(q, tZero)))
			}
			return one(R, wrapTo(goDiv(p, q), R))
		case token.REM:
			if q.i == nil || q.i.Sign() == 0 {
				x.obligation("safety", x.safeName(fr, "no division by zero"), fr, st, tNot(tEq(q, tZero)))
			}
			return one(R, goRem(p, q))
		case token.LSS:
			return one(R, tLt(p, q))
		case token.LEQ:
			return one(R, tLe(p, q))
		case token.GTR:
			return one(R, tGt(p, q))
		case token.GEQ:
			return one(R, tGe(p, q))
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			return one(R, x.bitop(in.Op, p, q, R))
		case token.SHL, token.SHR:
			if q.i == nil {
				if _, s, _ := intInfo(in.Y.Type()); s {
					x.obligation("safety", x.safeName(fr, "shift count non-negative"), fr, st, tGe(q, tZero))
				}
			}
			return one(R, x.shift(fr, st, in.Op, p, q, R))
		}
	}
	if bt, ok := T.Underlying().(*types.Basic); ok {
		if bt.Info()&types.IsString != 0 {
			switch in.Op {
			case token.ADD:
				if s1, ok := strConsts[a.c[0]]; ok {
					if s2, ok := strConsts[b.c[0]]; ok {
						return one(R, strConst(s1+s2))
					}
				}
				t := mkUF("strcat", "Str", a.c[0], b.c[0])
				addTermFact(t, tEq(strLen(t), tAdd(strLen(a.c[0]), strLen(b.c[0]))))
				return one(R, t)
			case token.LSS:
				return one(R, mkUF("strlt", "Bool", a.c[0], b.c[0]))
			case token.GTR:
				return one(R, mkUF("strlt", "Bool", b.c[0], a.c[0]))
			case token.LEQ:
				return one(R, tNot(mkUF("strlt", "Bool", b.c[0], a.c[0])))
			case token.GEQ:
				return one(R, tNot(mkUF("strlt", "Bool", a.c[0], b.c[0])))
			}
		}
		if bt.Info()&types.IsBoolean != 0 {
			switch in.Op {
			case token.AND:
				return one(R, tAnd(a.c[0], b.c[0]))
			case token.OR:
				return one(R, tOr(a.c[0], b.c[0]))
			}
		}
		if bt.Info()&types.IsComplex != 0 {
			switch in.Op {
			case token.ADD:
				return Value{typ: R, c: []*Term{fadd(a.c[0], b.c[0]), fadd(a.c[1], b.c[1])}}
			case token.SUB:
				return Value{typ: R, c: []*Term{fadd(a.c[0], fneg(b.c[0])), fadd(a.c[1], fneg(b.c[1]))}}
			case token.MUL:
				return Value{typ: R, c: []*Term{
					fadd(fmul(a.c[0], b.c[0]), fneg(fmul(a.c[1], b.c[1]))),
					fadd(fmul(a.c[0], b.c[1]), fmul(a.c[1], b.c[0]))}}
			}
		}
	}
	unsup("binop %s on %s", in.Op, T)
	return Value{}
}

func (x *Exec) equal(fr *Frame, st *State, a, b Value, T, T2 types.Type) *Term {
	if len(a.fns) > 0 || len(b.fns) > 0 {
		// comparison with nil only
		fa := len(a.fns) > 0
		fb := len(b.fns) > 0
		if fa != fb {
			o := b
			if fb {
				o = a
			}
			if len(o.c) == 1 && o.c[0] == tZero {
				return tFalse
			}
		}
		unsup("function comparison")
	}
	if a.cell != nil || b.cell != nil {
		if a.cell != nil && b.cell != nil {
			return mkBool(a.cell == b.cell && a.coff == b.coff)
		}
		return tFalse
	}
	if isReal(T) {
		return tEq(a.c[0], b.c[0])
	}
	_, ia := T.Underlying().(*types.Interface)
	_, ib := T2.Underlying().(*types.Interface)
	if ia != ib {
		unsup("mixed interface comparison")
	}
	switch T.Underlying().(type) {
	case *types.Basic:
		if len(a.c) == 1 && a.c[0].sort == "Str" {
			if strings.HasPrefix(b.c[0].op, "str_of_bytes") {
				a, b = b, a
			}
			if k, ok := strConsts[b.c[0]]; ok && strings.HasPrefix(a.c[0].op, "str_of_bytes") {
				t := a.c[0]
				cs := []*Term{tEq(t.args[2], mkInt(int64(len(k))))}
				for i := 0; i < len(k); i++ {
					cs = append(cs, tEq(tSelect(t.args[0], tAdd(t.args[1], mkInt(int64(i)))), mkInt(int64(k[i]))))
				}
				return tAnd(cs...)
			}
		}
	case *types.Slice, *types.Map:
		return tEq(a.c[0], b.c[0]) // comparison with nil
	case *types.Pointer:
		if b.c[0] == tZero || a.c[0] == tZero {
			return tEq(a.c[0], b.c[0])
		}
	case *types.Interface:
		if b.c[0] == tZero || a.c[0] == tZero {
			return tEq(a.c[0], b.c[0])
		}
		if x.spec == 0 && !x.p.isContractFn(fr.fn) {
			// == compares the boxed values: same box implies equal, different
			// dynamic types imply unequal, the rest is left open
			id := tAnd(tEq(a.c[0], b.c[0]), tEq(a.c[1], b.c[1]), tEq(a.c[2], b.c[2]))
			u := mkUF("ifaceeq", "Bool", append(append([]*Term{}, a.c...), b.c...)...)
			return tIte(id, tTrue, tAnd(tEq(a.c[0], b.c[0]), u))
		}
	}
	var cs []*Term
	var rec func(T types.Type, a, b []*Term)
	rec = func(T types.Type, a, b []*Term) {
		if s, ok := T.Underlying().(*types.Struct); ok {
			k := 0
			for i := 0; i < s.NumFields(); i++ {
				n := len(comps(s.Field(i).Type()))
				rec(s.Field(i).Type(), a[k:k+n], b[k:k+n])
				k += n
			}
			return
		}
		if at, ok := T.Underlying().(*types.Array); ok {
			for i := int64(0); i < at.Len(); i++ {
				var ea, eb []*Term
				for k := range a {
					ea = append(ea, tSelect(a[k], mkInt(i)))
					eb = append(eb, tSelect(b[k], mkInt(i)))
				}
				rec(at.Elem(), ea, eb)
			}
			return
		}
		if floatSort(T) != "" {
			cs = append(cs, feq(a[0], b[0]))
			return
		}
		if bt, ok := T.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			cs = append(cs, x.strEq(a[0], b[0]))
			return
		}
		for i := range a {
			cs = append(cs, tEq(a[i], b[i]))
		}
	}
	rec(T, a.c, b.c)
	return tAnd(cs...)
}

func (x *Exec) strEq(a, b *Term) *Term {
	for k := 0; k < 2; k++ {
		if s, ok := strConsts[b]; ok && a.op == "str_of_bytes" {
			// string(bytes) == constant
			cs := []*Term{tEq(a.args[2], mkInt(int64(len(s))))}
			for i := 0; i < len(s); i++ {
				cs = append(cs, tEq(tSelect(a.args[0], tAdd(a.args[1], mkInt(int64(i)))), mkInt(int64(s[i]))))
			}
			return tAnd(cs...)
		}
		a, b = b, a
	}
	return tEq(a, b)
}

func strAt(s, i *Term) *Term {
	if c, ok := strConsts[s]; ok && i.i != nil && i.i.IsInt64() && i.i.Int64() >= 0 && i.i.Int64() < int64(len(c)) {
		return mkInt(int64(c[i.i.Int64()]))
	}
	t := mkUF("strat", "Int", s, i)
	setRange(t, new(big.Int), big.NewInt(255))
	return t
}

func (x *Exec) unop(fr *Frame, st *State, in *ssa.UnOp) Value {
	v := x.val(fr, in.X)
	switch in.Op {
	case token.MUL:
		x.nilCheck(fr, st, v, "load")
		x.guardCheck(fr, st, in.X, false)
		if g, ok := in.X.(*ssa.Global); ok {
			if c := x.p.globalInit(x, g); c != nil {
				return *c
			}
		}
		r := x.load(fr, st, v, in.Type())
		x.guardLoaded(fr, st, in.X, r)
		return r
	case token.NOT:
		return one(in.Type(), tNot(v.c[0]))
	case token.SUB:
		if isReal(in.Type()) {
			return one(in.Type(), rNeg(v.c[0]))
		}
		if floatSort(in.Type()) != "" {
			return one(in.Type(), fneg(v.c[0]))
		}
		if b, ok := in.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
			return Value{typ: in.Type(), c: []*Term{fneg(v.c[0]), fneg(v.c[1])}}
		}
		return one(in.Type(), wrapTo(tSub(tZero, v.c[0]), in.Type()))
	case token.XOR:
		// ^x = -x-1
		r := tSub(tSub(tZero, v.c[0]), tOne)
		return one(in.Type(), wrapTo(r, in.Type()))
	}
	unsup("unop %s", in.Op)
	return Value{}
}

func (x *Exec) convert(fr *Frame, st *State, v Value, from, to types.Type) Value {
	if isReal(to) {
		if isReal(from) {
			return Value{typ: to, c: v.c}
		}
		if floatSort(from) != "" {
			return one(to, fval(v.c[0]))
		}
		if _, _, ok := intInfo(from); ok {
			return one(to, toReal(v.c[0]))
		}
	}
	fu, tu := from.Underlying(), to.Underlying()
	_, _, fi := intInfo(from)
	_, _, ti := intInfo(to)
	ff, tf := floatSort(from), floatSort(to)
	switch {
	case fi && ti:
		r := wrapTo(v.c[0], to)
		return one(to, r)
	case fi && tf != "":
		return one(to, i2f(v.c[0], tf))
	case ff != "" && ti:
		return one(to, f2i(v.c[0], to))
	case ff != "" && tf != "":
		return one(to, fconv(v.c[0], tf))
	}
	if _, ok := tu.(*types.Pointer); ok {
		return Value{typ: to, c: v.c, cell: v.cell, region: v.region}
	}
	if b, ok := tu.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return Value{typ: to, c: v.c, cell: v.cell, region: v.region}
	}
	if b, ok := fu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if s, ok := tu.(*types.Slice); ok {
			// []byte(string)
			blk := x.newBlock(st, "bytes")
			n := strLen(v.c[0])
			inner := mkSym("bytes", arr("Int", "Int"))
			if str, ok := strConsts[v.c[0]]; ok {
				inner = tConstArr(arr("Int", "Int"), tZero)
				for i := 0; i < len(str); i++ {
					inner = tStore(inner, mkInt(int64(i)), mkInt(int64(str[i])))
				}
			}
			x.heapSetInner(st, elemRegion(s.Elem())+"#", "Int", blk, inner)
			return Value{typ: to, c: []*Term{blk, tZero, n, n}}
		}
		if bt, ok := tu.(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			v.typ = to
			return v
		}
	}
	if b, ok := tu.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if s, ok := fu.(*types.Slice); ok {
			inner := x.heapInner(st, elemRegion(s.Elem())+"#", "Int", v.c[0])
			t := mkUF("str_of_bytes", "Str", inner, v.c[1], v.c[2])
			addTermFact(t, tEq(strLen(t), v.c[2]))
			return one(to, t)
		}
		if fi {
			return one(to, mkUF("str_of_rune", "Str", v.c[0]))
		}
	}
	unsup("convert %s -> %s", from, to)
	return Value{}
}

// ---------- slices ----------

func (x *Exec) slice(fr *Frame, st *State, in *ssa.Slice) {
	v := x.val(fr, in.X)
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = x.val(fr, in.Low).c[0]
	} else {
		lo = tZero
	}
	if in.High != nil {
		hi = x.val(fr, in.High).c[0]
	}
	if in.Max != nil {
		mx = x.val(fr, in.Max).c[0]
	}
	switch t := in.X.Type().Underlying().(type) {
	case *types.Slice:
		if hi == nil {
			hi = v.c[2]
		}
		cp := v.c[3]
		if mx == nil {
			mx = cp
		}
		g := tAnd(tLe(tZero, lo), tLe(lo, hi), tLe(hi, mx), tLe(mx, cp))
		if g != tTrue {
			x.obligation("safety", x.safeName(fr, "slice bounds in range"), fr, st, g)
		}
		fr.vals[in] = Value{typ: in.Type(), c: []*Term{v.c[0], tAdd(v.c[1], lo), tSub(hi, lo), tSub(mx, lo)}}
	case *types.Pointer:
		a := t.Elem().Underlying().(*types.Array)
		n := mkInt(a.Len())
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		g := tAnd(tLe(tZero, lo), tLe(lo, hi), tLe(hi, mx), tLe(mx, n))
		if g != tTrue {
			x.obligation("safety", x.safeName(fr, "slice bounds in range"), fr, st, g)
		}
		fr.vals[in] = Value{typ: in.Type(), c: []*Term{v.c[0], tAdd(v.c[1], lo), tSub(hi, lo), tSub(mx, lo)}}
	case *types.Basic:
		n := strLen(v.c[0])
		if hi == nil {
			hi = n
		}
		x.obligation("safety", x.safeName(fr, "slice bounds in range"), fr, st, tAnd(tLe(tZero, lo), tLe(lo, hi), tLe(hi, n)))
		r := mkUF("substr", "Str", v.c[0], lo, hi)
		addTermFact(r, tImp(tAnd(tLe(tZero, lo), tLe(lo, hi), tLe(hi, n)), tEq(strLen(r), tSub(hi, lo))))
		fr.vals[in] = one(in.Type(), r)
	default:
		unsup("slice of %s", in.X.Type())
	}
}

// element maps of a slice element type: (map name, sort)
func (x *Exec) elemMaps(E types.Type) []comp {
	if s, ok := E.Underlying().(*types.Struct); ok && !isReal(E) {
		var out []comp
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if isStruct(ft) || isArray(ft) {
				unsup("bulk copy of nested aggregates %s", E)
			}
			for _, c := range comps(ft) {
				out = append(out, comp{typeKey(E) + "." + s.Field(i).Name() + "#" + c.name, c.sort, c.lo, c.hi})
			}
		}
		return out
	}
	if isArray(E) {
		unsup("bulk copy of arrays")
	}
	var out []comp
	for _, c := range comps(E) {
		out = append(out, comp{elemRegion(E) + "#" + c.name, c.sort, c.lo, c.hi})
	}
	return out
}

// copyRange: dst[doff .. doff+n) := src inner array [soff ..)
func copyInner(dst, doff, src, soff, n *Term) *Term {
	if n == tZero {
		return dst
	}
	if n.i != nil && n.i.IsInt64() && n.i.Int64() <= 8 {
		r := dst
		for i := int64(0); i < n.i.Int64(); i++ {
			r = tStore(r, tAdd(doff, mkInt(i)), tSelect(src, tAdd(soff, mkInt(i))))
		}
		return r
	}
	r := mkSym("cp", dst.sort)
	i := mkBound("i", "Int")
	in := tAnd(tLe(doff, i), tLt(i, tAdd(doff, n)))
	// defining axiom of the copied array
	ax := mkForall(i, tEq(tSelect(r, i), tIte(in, tSelect(src, tAdd(tSub(i, doff), soff)), tSelect(dst, i))))
	addTermFact(r, ax)
	if soff == doff {
		return r
	}
	// second trigger direction: from source index
	j := mkBound("j", "Int")
	ax2 := mkForall(j, tImp(tAnd(tLe(soff, j), tLt(j, tAdd(soff, n))), tEq(tSelect(r, tAdd(tSub(j, soff), doff)), tSelect(src, j))))
	addTermFact(r, ax2)
	return r
}

func (x *Exec) copySlice(fr *Frame, st *State, dst, src Value, E types.Type, n *Term) {
	for _, m := range x.elemMaps(E) {
		d := x.heapInner(st, m.name, m.sort, dst.c[0])
		s := x.heapInner(st, m.name, m.sort, src.c[0])
		x.heapSetInner(st, m.name, m.sort, dst.c[0], tIte(tLe(n, tZero), d, copyInner(d, dst.c[1], s, src.c[1], n)))
	}
}

func (x *Exec) appendSlice(fr *Frame, st *State, a, b Value, E types.Type, T types.Type) Value {
	la, lb := a.c[2], b.c[2]
	n := tAdd(la, lb)
	fits := tLe(n, a.c[3])
	if lb == tZero {
		return a
	}
	nb := x.newBlock(st, "append")
	ncap := mkSym("cap", "Int")
	setRange(ncap, new(big.Int), maxLen)
	x.fact(st, tImp(tNot(fits), tAnd(tLe(n, ncap), tLe(ncap, mkBig(maxLen)))))
	blk := tIte(fits, a.c[0], nb)
	off := tIte(fits, a.c[1], tZero)
	for _, m := range x.elemMaps(E) {
		sa := x.heapInner(st, m.name, m.sort, a.c[0])
		sb := x.heapInner(st, m.name, m.sort, b.c[0])
		// in place
		inpl := copyInner(sa, tAdd(a.c[1], la), sb, b.c[1], lb)
		// new block: old prefix then b
		base := mkSym("grown", sa.sort)
		if a.c[1] == tZero {
			base = sa
		} else {
			i := mkBound("i", "Int")
			addTermFact(base, mkForall(i, tImp(tAnd(tLe(tZero, i), tLt(i, la)), tEq(tSelect(base, i), tSelect(sa, tAdd(i, a.c[1]))))))
		}
		grown := copyInner(base, la, sb, b.c[1], lb)
		h := st.get(m.name, mapSort2(m.sort))
		h1 := tStore(h, a.c[0], inpl)
		h2 := tStore(h, nb, grown)
		x.record(m.name, h.sort, a.c[0], nil)
		x.record(m.name, h.sort, nb, nil)
		st.heap[m.name] = tStore(tIte(fits, h1, h), nb, tIte(fits, tSelect(h, nb), grown))
		_ = h2
	}
	return Value{typ: T, c: []*Term{blk, off, n, tIte(fits, a.c[3], ncap)}}
}

// ---------- maps ----------

func (x *Exec) keySort(K types.Type) string {
	cs := comps(K)
	if len(cs) != 1 {
		if _, ok := K.Underlying().(*types.Pointer); ok {
			return "Int"
		}
		if isStruct(K) || true {
			unsup("map key type %s", K)
		}
	}
	return cs[0].sort
}

func (x *Exec) mapSet(st *State, name, inner string, blk, v *Term) {
	if isFrz(blk) {
		unsup("writing to a copy made by vc.Old")
	}
	srt := arr("Int", inner)
	st.heap[name] = tStore(st.get(name, srt), blk, v)
	x.record(name, srt, blk, nil)
}
func (x *Exec) mapGet(st *State, name, inner string, blk *Term) *Term {
	st, blk = x.thaw(st, blk)
	return tSelect(st.get(name, arr("Int", inner)), blk)
}

func mapKey(m *types.Map) string { return "map:" + typeKey(m.Key()) + ":" + typeKey(m.Elem()) }

func (x *Exec) mapRead(st *State, m Value, M *types.Map, key *Term) (Value, *Term) {
	k := mapKey(M)
	ks := x.keySort(M.Key())
	in := tAnd(tNot(tEq(m.c[0], tZero)), tSelect(x.mapGet(st, k+"!D", arr(ks, "Bool"), m.c[0]), key))
	r := Value{typ: M.Elem()}
	z := zeroValue(M.Elem())
	raw := Value{typ: M.Elem()}
	for _, c := range comps(M.Elem()) {
		raw.c = append(raw.c, tSelect(x.mapGet(st, k+"!V#"+c.name, arr(ks, c.sort), m.c[0]), key))
	}
	x.wellFormed(st, raw, M.Elem())
	raw = x.refreeze(m.c[0], raw, M.Elem())
	for i := range raw.c {
		r.c = append(r.c, tIte(in, raw.c[i], z.c[i]))
	}
	return r, in
}

func (x *Exec) lookup(fr *Frame, st *State, in *ssa.Lookup) {
	v := x.val(fr, in.X)
	M, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		i := x.val(fr, in.Index).c[0]
		x.boundsCheck(fr, st, i, strLen(v.c[0]))
		fr.vals[in] = one(in.Type(), strAt(v.c[0], i))
		return
	}
	x.guardMap(fr, st, v, false)
	r, has := x.mapRead(st, v, M, x.val(fr, in.Index).c[0])
	if in.CommaOk {
		fr.vals[in] = Value{typ: in.Type(), isTup: true, tup: []Value{r, one(types.Typ[types.Bool], has)}}
	} else {
		fr.vals[in] = r
	}
}

func (x *Exec) mapUpdate(fr *Frame, st *State, in *ssa.MapUpdate) {
	m := x.val(fr, in.Map)
	M := in.Map.Type().Underlying().(*types.Map)
	x.nilCheck(fr, st, m, "map write")
	x.guardMap(fr, st, m, true)
	key := x.val(fr, in.Key).c[0]
	v := x.val(fr, in.Value)
	if len(v.fns) > 0 {
		v.c = []*Term{x.fnID(v)}
	}
	x.mapWrite(st, m, M, key, v)
}

func (x *Exec) mapWrite(st *State, m Value, M *types.Map, key *Term, v Value) {
	k := mapKey(M)
	ks := x.keySort(M.Key())
	d := x.mapGet(st, k+"!D", arr(ks, "Bool"), m.c[0])
	n := x.mapGet(st, k+"!N", "Int", m.c[0])
	x.mapSet(st, k+"!N", "Int", m.c[0], tIte(tSelect(d, key), n, tAdd(n, tOne)))
	x.mapSet(st, k+"!D", arr(ks, "Bool"), m.c[0], tStore(d, key, tTrue))
	for i, c := range comps(M.Elem()) {
		name := k + "!V#" + c.name
		x.mapSet(st, name, arr(ks, c.sort), m.c[0], tStore(x.mapGet(st, name, arr(ks, c.sort), m.c[0]), key, v.c[i]))
	}
}

func (x *Exec) mapDelete(fr *Frame, st *State, m Value, M *types.Map, key *Term) {
	x.guardMap(fr, st, m, true)
	k := mapKey(M)
	ks := x.keySort(M.Key())
	d := x.mapGet(st, k+"!D", arr(ks, "Bool"), m.c[0])
	n := x.mapGet(st, k+"!N", "Int", m.c[0])
	has := tAnd(tNot(tEq(m.c[0], tZero)), tSelect(d, key))
	x.fact(st, tImp(has, tLe(tOne, n)))
	x.mapSet(st, k+"!N", "Int", m.c[0], tIte(has, tSub(n, tOne), n))
	x.mapSet(st, k+"!D", arr(ks, "Bool"), m.c[0], tIte(tEq(m.c[0], tZero), d, tStore(d, key, tFalse)))
}

func (x *Exec) mapLen(st *State, m Value, M *types.Map) *Term {
	k := mapKey(M)
	n := x.mapGet(st, k+"!N", "Int", m.c[0])
	if n.op == "select" {
		setRange(n, new(big.Int), maxLen)
	}
	return tIte(tEq(m.c[0], tZero), tZero, n)
}

func (x *Exec) mapRange(fr *Frame, st *State, in *ssa.Range) {
	v := x.val(fr, in.X)
	M, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		unsup("range over string")
	}
	x.cellN++
	ks := x.keySort(M.Key())
	// the visited set is ghost state: a cell holding a key set
	ct := &visitedType{ks}
	_ = ct
	c := &Cell{id: x.cellN, typ: types.NewArray(types.Typ[types.Bool], 1), name: "visited"}
	if ks != "Int" {
		unsup("range over map with key %s", M.Key())
	}
	st.cells[c] = Value{typ: c.typ, c: []*Term{tConstArr(arr(ks, "Bool"), tFalse)}}
	x.guardMap(fr, st, v, false)
	fr.vals[in] = Value{typ: in.Type(), iter: &mapIter{m: v, key: M.Key(), elem: M.Elem(), cell: c}}
	x.p.lastIter = c
}

type visitedType struct{ ks string }

func (x *Exec) mapNext(fr *Frame, st *State, in *ssa.Next) {
	if in.IsString {
		unsup("range over string")
	}
	it := x.val(fr, in.Iter).iter
	M := types.NewMap(it.key, it.elem)
	k := mapKey(M)
	ks := x.keySort(it.key)
	d := x.mapGet(st, k+"!D", arr(ks, "Bool"), it.m.c[0])
	vis := st.cells[it.cell].c[0]
	key := mkSym("key", ks)
	kv := one(it.key, key)
	x.wellFormed(st, kv, it.key)
	ok := mkSym("ok", "Bool")
	x.fact(st, tImp(ok, tAnd(tNot(tEq(it.m.c[0], tZero)), tSelect(d, key), tNot(tSelect(vis, key)))))
	b := mkBound("k", ks)
	x.fact(st, tImp(tNot(ok), tOr(tEq(it.m.c[0], tZero), mkForall(b, tImp(tSelect(d, b), tSelect(vis, b))))))
	st.cells[it.cell] = Value{typ: it.cell.typ, c: []*Term{tIte(ok, tStore(vis, key, tTrue), vis)}}
	for _, r := range x.recs {
		r.cells[it.cell] = true
	}
	val, _ := x.mapRead(st, it.m, M, key)
	fr.vals[in] = Value{typ: in.Type(), isTup: true, tup: []Value{one(types.Typ[types.Bool], ok), kv, val}}
}

// ---------- interfaces ----------

func (x *Exec) makeInterface(fr *Frame, st *State, v Value, from, to types.Type) Value {
	tag := mkInt(int64(x.p.typeTag(from)))
	r := Value{typ: to, dyn: &Value{}}
	vv := v
	vv.typ = from
	*r.dyn = vv
	switch from.Underlying().(type) {
	case *types.Pointer:
		if v.cell != nil {
			r.c = []*Term{tag, mkInt(-1), tZero}
			return r
		}
		r.c = []*Term{tag, v.c[0], v.c[1]}
		return r
	case *types.Signature:
		r.c = []*Term{tag, x.fnID(v), tZero}
		return r
	}
	// box the value
	blk := x.newBlock(st, "box")
	p := Value{typ: types.NewPointer(from), c: []*Term{blk, tZero}}
	if !isStruct(from) && !isArray(from) {
		p.region = "box:" + typeKey(from)
	}
	if x.spec > 0 || x.dry > 0 {
		x.store(fr, st, p, v, from)
	} else {
		x.store(fr, st, p, v, from)
	}
	r.c = []*Term{tag, blk, tZero}
	x.linkPure(fr, st, tTrue, Value{typ: to, c: r.c}, vv)
	return r
}

func (x *Exec) unbox(fr *Frame, st *State, v Value, T types.Type) Value {
	if v.dyn != nil && types.Identical(v.dyn.typ, T) {
		return *v.dyn
	}
	if _, ok := T.Underlying().(*types.Pointer); ok {
		r := Value{typ: T, c: []*Term{v.c[1], v.c[2]}}
		return r
	}
	if _, ok := T.Underlying().(*types.Signature); ok {
		return one(T, v.c[1])
	}
	p := Value{typ: types.NewPointer(T), c: []*Term{v.c[1], tZero}}
	if !isStruct(T) && !isArray(T) {
		p.region = "box:" + typeKey(T)
	}
	return x.load(fr, st, p, T)
}

func (x *Exec) typeAssert(fr *Frame, st *State, in *ssa.TypeAssert) {
	v := x.val(fr, in.X)
	T := in.AssertedType
	if it, ok := T.Underlying().(*types.Interface); ok {
		var okT *Term
		if v.dyn != nil {
			okT = mkBool(types.Implements(v.dyn.typ, it))
		} else {
			// tag belongs to a type implementing the interface
			okT = tAnd(tNot(tEq(v.c[0], tZero)), x.p.implPred(x, v.c[0], it, typeKey(T)))
		}
		r := v
		r.typ = T
		if in.CommaOk {
			fr.vals[in] = Value{typ: in.Type(), isTup: true, tup: []Value{x.iteValue(okT, r, zeroValue(T)), one(types.Typ[types.Bool], okT)}}
		} else {
			x.obligation("safety", x.safeName(fr, "type assertion holds"), fr, st, okT)
			fr.vals[in] = r
		}
		return
	}
	tag := mkInt(int64(x.p.typeTag(T)))
	ok := tEq(v.c[0], tag)
	if ok == tFalse {
		if !in.CommaOk {
			x.obligation("safety", x.safeName(fr, "type assertion holds"), fr, st, tFalse)
		}
		z := zeroValue(T)
		if in.CommaOk {
			fr.vals[in] = Value{typ: in.Type(), isTup: true, tup: []Value{z, one(types.Typ[types.Bool], tFalse)}}
		} else {
			fr.vals[in] = z
		}
		return
	}
	r := x.unbox(fr, st, v, T)
	if v.dyn == nil {
		x.linkPure(fr, st, ok, v, r)
	}
	if in.CommaOk {
		fr.vals[in] = Value{typ: in.Type(), isTup: true, tup: []Value{x.iteValue(ok, r, zeroValue(T)), one(types.Typ[types.Bool], ok)}}
	} else {
		x.obligation("safety", x.safeName(fr, "type assertion holds"), fr, st, ok)
		fr.vals[in] = r
	}
}
